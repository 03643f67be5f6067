"""Contracts of the raster reader and writer (C19). GDAL is a stand-in that keeps what it is handed: a created dataset remembers its
size, type, transform, coordinate system, nodata value and the array written to its only band."""
from .stand import *
from vf.vals import U

GDT = {'GDT_Byte': 'u1', 'GDT_UInt16': 'u2', 'GDT_Int16': 'i2', 'GDT_UInt32': 'u4', 'GDT_Int32': 'i4', 'GDT_Float32': 'f4', 'GDT_Float64': 'f8'}
NUM = {'GDT_Byte': 1, 'GDT_UInt16': 2, 'GDT_Int16': 3, 'GDT_UInt32': 4, 'GDT_Int32': 5, 'GDT_Float32': 6, 'GDT_Float64': 7}
KINDS = {NUM[n]: k for n, k in GDT.items()}
NANV = z3.Real('NaN')           # stands for NaN among the values of a raster: no number
EMPTY = object()


class Gdal(object):
    def __init__(self):
        self.created = None
        self.opened = None

    def external(self, ex, st, full):
        n = full.split('.')[-1]
        if full.startswith('osgeo.gdal.'):
            if n in NUM:
                return NUM[n]
            if n == 'UseExceptions':
                return Null()
            if n == 'GetDriverByName':
                return BI(full, self.driver)
            if n == 'Open':
                return BI(full, self.open)
        if full.startswith('osgeo.'):
            return NotImplemented
        return NotImplemented

    def call(self, ex, st, fn, args, kwargs):
        return NotImplemented

    call_other = lambda self, ex, st, f, args, kwargs: NotImplemented

    def instantiate(self, ex, st, c, args, kwargs):
        return None

    # ------------------------------------------------------------ writing
    def driver(self, ex, st, args, kw):
        name = args[0]
        return ex.alloc(st, ObjC(None, {'Create': BI('Create', lambda ex, st, a, k: self.create(ex, st, name, a, k))}))

    def create(self, ex, st, driver, args, kw):
        a = list(args)
        if kw or len(a) < 5:
            raise Unsupported('arguments of Create')
        path, w, h, nb, typ = a[:5]
        if not isinstance(typ, int) or typ not in KINDS or nb != 1:
            raise Unsupported('type or number of bands of a new raster')
        d = ex.alloc(st, ObjC(None, {}))

        def put(name):
            def f(ex, st, args, kw):
                st.heap[d.id] = ObjC(None, dict(st.heap[d.id].attrs, **{name: args[0]}))
                return 0
            return BI(name, f)

        def write(ex, st, args, kw):
            v = args[0]
            if isinstance(v, ArrView):
                v = ex.lib.materialize(ex, st, v)
            c = st.heap.get(v.id) if isinstance(v, Ref) else None
            off = list(args[1:3]) + [kw.get('xoff', 0), kw.get('yoff', 0)][len(args[1:3]):]
            if not isinstance(c, ArrC) or len(c.shape) != 2 or any(not isinstance(x, int) or x != 0 for x in off):
                raise Unsupported('what is written to a band')
            ex.need(st, 'the array has the size of the raster', z3.And(iterm(c.shape[0]) == iterm(h), iterm(c.shape[1]) == iterm(w)))
            k = KINDS[typ]
            if c.dt.k != k:
                # GDAL converts: values must be ones of the type
                r, s = z3.Ints('r s')
                t = c.fn(r, s)
                if k in RANGE and c.dt.k in RANGE:
                    ex.need(st, 'the values are ones of the type of the raster', z3.ForAll([r, s], z3.Implies(ex.lib.inb([r, s], c.shape), z3.And(t >= RANGE[k][0], t <= RANGE[k][1]))))
                elif k == 'f8' and c.dt.k in ('f4', 'i1', 'i2', 'i4', 'u1', 'u2', 'u4'):
                    pass
                elif k == 'f4' and c.dt.k in ('i1', 'i2', 'u1', 'u2'):
                    pass
                else:
                    raise Unsupported('%s written to a raster of type %s' % (c.dt.k, k))
            put('band').f(ex, st, [ex.alloc(st, c)], {})
            return 0
        band = ex.alloc(st, ObjC(None, {'SetNoDataValue': put('nodata'), 'WriteArray': BI('WriteArray', write), 'FlushCache': BI('FlushCache', lambda ex, st, a, k: 0)}))

        def getband(ex, st, args, kw):
            if args[0] != 1:
                raise Unsupported('band number')
            return band
        st.heap[d.id] = ObjC(None, {'driver': driver, 'path': path, 'width': w, 'height': h, 'type': typ, 'SetGeoTransform': put('transform'), 'SetProjection': put('crs'),
                                    'transform': None, 'crs': None, 'nodata': None, 'band': None,
                                    'GetRasterBand': BI('GetRasterBand', getband), 'FlushCache': BI('FlushCache', lambda ex, st, a, k: 0)})
        ex.lib.l_append(ex, st, self.created, st.heap[self.created.id], d)
        return d

    # ------------------------------------------------------------ reading
    def open(self, ex, st, args, kw):
        if not (isinstance(args[0], Op) and args[0].t.eq(self.path.t)):
            raise Unsupported('another file is opened')
        o = self.opened
        band = ex.alloc(st, ObjC(None, {'GetNoDataValue': BI('GetNoDataValue', lambda ex, st, a, k: o['nodata']),
                                        'ReadAsArray': BI('ReadAsArray', lambda ex, st, a, k: ex.alloc(st, st.heap[o['data'].id]) if not a and not k else ex.lib.unsup('ReadAsArray'))}))

        def getband(ex, st, args, kw):
            if args[0] != 1:
                raise Unsupported('band number')
            return band
        return ex.alloc(st, ObjC(None, {'GetRasterBand': BI('GetRasterBand', getband), 'GetGeoTransform': BI('GetGeoTransform', lambda ex, st, a, k: o['transform']),
                                        'GetProjection': BI('GetProjection', lambda ex, st, a, k: o['crs']), 'RasterXSize': o['width'], 'RasterYSize': o['height']}))


class Base(Contract):
    def glue(self):
        self.gd = Gdal()
        return self.gd

    def table(self):
        return {}

    def prepare(self, ex):
        ex.lib.truth_hook = lambda ex, st, v: True
        ex.lib.isnan_hook = self.isnan
        ex.lib.np['isclose'] = BI('np.isclose', self.isclose)

    def isnan(self, ex, st, x):
        if isinstance(x, Opt):
            ex.need(st, 'operand of isnan is not None', NOT(x.isnone))
            x = x.v
        if is_num(x):
            if not isinstance(x, N):
                return False
            t = rterm(x)
            if t.eq(NANV):
                return True
            if x.t.decl().name() in ('nodata', 'subst'):
                return False
            return mk(t == NANV, 'bool')
        y = ex.lib.as_array(ex, st, x)
        if y is None:
            raise Unsupported('isnan')
        dt, shape, f = y
        return ex.alloc(st, ArrC(DT('bool'), shape, (lambda *i: f(*i) == NANV) if dt.k in FLTK else (lambda *i: z3.BoolVal(False))))

    def isclose(self, ex, st, args, kw):
        """|a - b| <= 1e-8 + 1e-5 |b| for numbers, equal when one of them is infinite"""
        if len(args) != 2 or kw:
            raise Unsupported('isclose')
        dt, shape, f = ex.lib.as_array(ex, st, args[0])
        b = args[1]
        if isinstance(b, Opt):
            ex.need(st, 'operand of isclose is not None', NOT(b.isnone))
            b = b.v
        b = rterm(b)
        re = (lambda t: z3.ToReal(t) if z3.is_int(t) else t)
        return ex.alloc(st, ArrC(DT('bool'), shape, lambda *i: close(re(f(*i)), b)))


def close(a, b):
    ab = z3.If(b >= 0, b, -b)
    d = z3.If(a >= b, a - b, b - a)
    inf = lambda x: z3.Or(x == INF, x == -INF)
    return z3.And(a != NANV, b != NANV, z3.If(z3.Or(inf(a), inf(b)), a == b, d <= z3.Q(1, 10**8) + ab * z3.Q(1, 10**5)))


class Write(Base):
    """Types GDAL knows are written as they are, other integers as a type that holds all values; what fits none is refused."""
    quals = ('malstroem.io.RasterWriter.write',)
    params = ('self', 'data')
    variant = 'f4'
    unroll = True

    def setup(self, ex, st, fn):
        k = self.variant
        self.data = arr(ex, st, 'data', k, dims(st, lo=1))
        self.tr = transform(st)
        self.path, self.crs = Op(z3.Const('path', U)), Op(z3.Const('crs', U))
        self.nodata = Opt(z3.Bool('no_nodata'), N(z3.Real('nodata'), 'f8'))
        self.gd.created = ex.alloc(st, ListC([]))
        parts = fn.qual.split('.')
        w = ex.instantiate(ex.getglobal(st, 'mod:malstroem.io', 'RasterWriter'), [self.path, self.tr, self.crs, self.nodata], {}, st, None)
        return {'self': w, 'data': self.data}

    def modifies(self, ex, st, a, g):
        return [self.gd.created]

    def raises(self, ex, st, a, g):
        k = self.variant
        if k in GDT.values() or k not in RANGE:
            return []
        H, W = shape_of(st, self.data)
        d = fn_of(st, self.data)
        within = lambda lo, hi: z3.ForAll([r, c], z3.Implies(inside(r, c, H, W), z3.And(d(r, c) >= lo, d(r, c) <= hi)))
        return [('*', z3.And(z3.Not(within(0, 2**32 - 1)), z3.Not(within(-2**31, 2**31 - 1))))]

    def post(self, ex, old, st, a, g, res):
        l = st.heap[self.gd.created.id]
        if not isinstance(l, ListC) or not l.items:
            return [('a raster is created', z3.BoolVal(False))]
        items = []
        for q, v in l.items:
            q = toB(True) if q is None else q
            items += [(AND(q, toB(p)), x) for p, x in v.alts] if isinstance(v, Uni) else [(q, v)]
        gs = [toB(q) for q, _ in items]
        out = [('one raster is created', z3.And(z3.Or(gs), *[z3.Not(z3.And(x, y)) for i, x in enumerate(gs) for y in gs[:i]]))]
        H, W = shape_of(old, self.data)
        d = fn_of(old, self.data)
        for i, (q, ref) in enumerate(items):
            q = toB(q)
            at = st.heap[ref.id].attrs
            nm = lambda s: s if len(items) == 1 else '%s (alternative %d)' % (s, i + 1)
            im = lambda t: z3.Implies(q, t)
            out.append((nm('it is the file of the writer'), im(z3.BoolVal(isinstance(at['path'], Op) and at['path'].t.eq(self.path.t)))))
            out.append((nm('it has the size of the array'), im(z3.And(iterm(at['width']) == W, iterm(at['height']) == H))))
            k = KINDS[at['type']] if isinstance(at['type'], int) else None
            if self.variant in GDT.values():
                out.append((nm('it has the type of the array'), im(z3.BoolVal(k == self.variant))))
            b = at['band']
            if not isinstance(b, Ref):
                return out + [(nm('the array is written'), z3.BoolVal(False))]
            f = fn_of(st, b)
            num = lambda t: z3.If(t, 1, 0) if z3.is_bool(t) else t
            x, y = num(f(r, c)), num(d(r, c))
            out.append((nm('every cell keeps its value'), im(forall([r, c], z3.Implies(inside(r, c, H, W), rterm(N(x, 'f8' if x.sort() == z3.RealSort() else 'int')) == rterm(N(y, 'f8' if y.sort() == z3.RealSort() else 'int'))), d(r, c)))))
            t = at['transform']
            out.append((nm('it has the georeference of the writer'), im(z3.And([rterm(u) == rterm(v) for u, v in zip(t, self.tr)])) if isinstance(t, tuple) and len(t) == 6 else z3.BoolVal(False)))
            out.append((nm('it has the coordinate system of the writer'), z3.BoolVal(isinstance(at['crs'], Op) and at['crs'].t.eq(self.crs.t))))
            n = at['nodata']
            isn = toB(True) if n is None else toB(n.isnone) if isinstance(n, Opt) else toB(False)
            val = None if n is None else n.v if isinstance(n, Opt) else n
            out.append((nm('it has the nodata value of the writer'), im(z3.And(isn == self.nodata.isnone, z3.Implies(z3.Not(isn), rterm(val) == rterm(self.nodata.v)) if val is not None else toB(True)))))
        return out


class Read(Base):
    """The raster as stored; with a substitute given, the cells that hold nodata (as compared by numpy) hold the substitute."""
    quals = ('malstroem.io.RasterReader.read',)
    params = ('self',)
    variant = 'f4,number'

    def setup(self, ex, st, fn):
        k, nod = self.variant.split(',')
        self.k, self.nod = k, nod
        h, w = dims(st, lo=1)
        data = arr(ex, st, 'data', k, [h, w])
        f = fn_of(st, data)
        st.assume(z3.Or(NANV > INF, NANV < -INF))
        if k in FLTK:
            st.pc = [x for x in st.pc if 'data' not in str(x[1])]       # NaN is a value too
            st.assume(forall([r, c], z3.Or(f(r, c) == NANV, z3.And(f(r, c) <= INF, f(r, c) >= -INF)), f(r, c)))
        v = N(NANV, 'f8') if nod == 'nan' else N(z3.Real('nodata'), 'f8')
        if nod != 'nan':
            st.assume(z3.And(v.t != NANV, v.t <= INF, v.t >= -INF))
        self.nodata = None if nod == 'none' else v
        s = z3.Real('subst') if k in FLTK else z3.Int('subst')
        st.assume(INF > 2**200)
        if k in RANGE:
            st.assume(z3.And(s >= RANGE[k][0], s <= RANGE[k][1]))
        else:
            st.assume(z3.And(s < INF, s > -INF, s != NANV))
            if k == 'f4':
                st.assume(R4(s) == s)       # the substitute is a value of the type of the raster
        self.subst = Opt(z3.Bool('no_subst'), N(s, k if k in RANGE else 'f8'))
        self.data, self.tr = data, transform(st)
        self.path, self.crs = Op(z3.Const('path', U)), Op(z3.Const('crs', U))
        self.gd.path = self.path
        self.gd.opened = {'data': data, 'nodata': self.nodata, 'transform': self.tr, 'crs': self.crs, 'width': w, 'height': h}
        self.reader = ex.instantiate(ex.getglobal(st, 'mod:malstroem.io', 'RasterReader'), [self.path, self.subst], {}, st, None)
        return {'self': self.reader}

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 2):
            return [('an array is returned', z3.BoolVal(False))]
        H, W = shape_of(old, self.data)
        h, w = shape_of(st, res)
        d, f = fn_of(old, self.data), fn_of(st, res)
        re = (lambda t: z3.ToReal(t) if z3.is_int(t) else t)
        out = [('it has the type of the raster', z3.BoolVal(st.heap[res.id].dt.k == self.k)), ('it has the size of the raster', z3.And(h == H, w == W))]
        ins = inside(r, c, H, W)
        kept = f(r, c) == d(r, c)
        if self.nodata is None:
            out.append(('every cell keeps its value', forall([r, c], z3.Implies(ins, kept), d(r, c))))
        else:
            n = rterm(self.nodata)
            s = self.subst
            on = NOT(s.isnone)
            out.append(('without a substitute every cell keeps its value', forall([r, c], z3.Implies(z3.And(ins, s.isnone), kept), d(r, c))))
            hold = re(d(r, c)) == n
            differ = NOT(OR(hold, close(re(d(r, c)), n)))
            out.append(('cells that hold nodata hold the substitute', forall([r, c], z3.Implies(z3.And(ins, on, hold), re(f(r, c)) == re(s.v.t)), d(r, c))))
            out.append(('cells that differ from nodata keep their value', forall([r, c], z3.Implies(z3.And(ins, on, differ), kept), d(r, c))))
        at = st.heap[self.reader.id].attrs
        t = at.get('transform')
        out.append(('the reader tells the georeference of the raster', z3.And([rterm(u) == rterm(v) for u, v in zip(t, self.tr)]) if isinstance(t, tuple) and len(t) == 6 else z3.BoolVal(False)))
        out.append(('the reader tells the coordinate system of the raster', z3.BoolVal(isinstance(at.get('crs'), Op) and at['crs'].t.eq(self.crs.t))))
        n = at.get('nodata')
        out.append(('the reader tells the nodata value of the raster', z3.BoolVal(n is None) if self.nodata is None else z3.BoolVal(isinstance(n, N) and n.t.eq(self.nodata.t))))
        sh, rs = at.get('shape'), at.get('resolution')
        out.append(('the reader tells the size of the raster', z3.And(iterm(sh[0]) == H, iterm(sh[1]) == W) if isinstance(sh, tuple) and len(sh) == 2 else z3.BoolVal(False)))
        ab = lambda x: z3.If(x >= 0, x, -x)
        out.append(('the reader tells the size of the cells', z3.And(rterm(rs[0]) == ab(self.tr[5].t), rterm(rs[1]) == ab(self.tr[1].t)) if isinstance(rs, tuple) and len(rs) == 2 else z3.BoolVal(False)))
        return out


CONTRACTS = [Write(), Read()]
