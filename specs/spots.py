"""Contracts of the bluespot stage: regions, filter, pour points (C08, C09)."""
from .features import *
from .label import folds, Stats, MinIndex, MaxIndex, LP
from . import flow
from vf.vals import Components as Comp, ADJ

Q = 'malstroem.bluespots.'
R = z3.RealSort()
i, j, k, l = z3.Ints('i j k l')
# the filter: of least, greatest value, sum, number of cells, volume and area
FILTER = z3.Function('filter_accepts', *([R] * 6 + [B]))


class Components(Contract):
    """The labels are the 8-connected regions of the cells that are not zero."""
    quals = (LP + 'connected_components',)
    params = ('data',)
    variant = 'f4'

    def setup(self, ex, st, fn):
        return {'data': arr(ex, st, 'data', self.variant, dims(st, lo=1))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.data, 2)

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.data)
        return [('not empty', z3.And(H >= 1, W >= 1))]

    def mask(self, st, a):
        f = fn_of(st, a.data)
        return f if st.heap[a.data.id].dt.k == 'bool' else lambda r, c: f(r, c) != 0

    def result(self, ex, st, a, g):
        H, W = shape_of(st, a.data)
        m = Comp(freshf('region', I, I, I), fresh('nregions', I), H, W)
        ref = ex.alloc(st, ArrC(DT('i4'), st.heap[a.data.id].shape, m.L))
        m.data = fn_of(st, a.data)
        register(ex, m)
        return ref, N(m.n, 'int')

    def post(self, ex, old, st, a, g, res):
        if not isinstance(res, tuple) or len(res) != 2 or not is_arr(st, res[0], 2) or not is_num(res[1]):
            return [('result is an array and a number', z3.BoolVal(False))]
        H, W = shape_of(old, a.data)
        h, w = shape_of(st, res[0])
        m = tree(ex, st, res[0])
        if m is None:
            return [('the labels are those of connected components', z3.BoolVal(False))]
        b = Comp.__new__(Comp)
        b.__dict__.update(m.__dict__)
        b.L, b.n, b.H, b.W = fn_of(st, res[0]), iterm(res[1]), H, W
        return [('same shape', z3.And(h == H, w == W))] + b.facts(self.mask(old, a), STEP)


def register(ex, m):
    ex.__dict__.setdefault('ghosts', {})[('components', m.L)] = m


def tree(ex, st, ref):
    """the ghost of a raster of labels"""
    f = fn_of(st, ref)
    ms = [m for k, m in ex.__dict__.get('ghosts', {}).items() if k[0] == 'components']
    own = [m for m in ms if m.L is f]
    return own[-1] if own else (ms[-1] if ms else None)


def accepts(mn, mx, sm, n, area):
    return FILTER(mn, mx, sm, z3.ToReal(n), sm * area, z3.ToReal(n) * area)


class Filter(Contract):
    """A bluespot is kept exactly when the filter accepts its values, area and volume in metres."""
    quals = (Q + 'filterbluespots',)
    params = ('filterfunction', 'cell_area', 'raw_bluespot_stats')
    fp = 'real'

    def setup(self, ex, st, fn):
        n = integer(st, 'nstats', 0)
        F = {f: z3.Function('stat_' + f, I, I if f == 'count' else R) for f in Stats.fields}
        return {'filterfunction': filterfunction(), 'cell_area': real(st, 'cell_area'), 'raw_bluespot_stats': ex.alloc(st, ArrC(DT('rec', tuple((f, 'i8' if f == 'count' else 'f8') for f in Stats.fields)), (n,), F))}

    def accepts(self, ex, st, a):
        return isinstance(a.filterfunction, BI) and a.filterfunction.name == 'filter' and is_num(a.cell_area) and is_arr(st, a.raw_bluespot_stats, 1) and isinstance(fn_of(st, a.raw_bluespot_stats), dict)

    def result(self, ex, st, a, g):
        K = freshf('keep', I, B)
        return ex.alloc(st, SeqC(shape_of(st, a.raw_bluespot_stats)[0], lambda i: N(K(i), 'bool')))

    def kept(self, ex, st, a, v, n):
        s = ex.lib.as_seqv(ex, st.heap[v.id]) if isinstance(v, Ref) and isinstance(st.heap.get(v.id), (ListC, SeqC, TreeC)) else None
        if s is None:
            return [('result is a list', z3.BoolVal(False))]
        F = fn_of(ex.top.entry if ex.top.ctr is self else st, a.raw_bluespot_stats)
        e = s.at(i)
        if e is None or isinstance(e, Undef):
            return [('one answer for every bluespot', iterm(s.n) == n)]
        want = accepts(F['min'](i), F['max'](i), F['sum'](i), F['count'](i), rterm(a.cell_area))
        return [('one answer for every bluespot', iterm(s.n) == n),
                ('the answer is that of the filter for the values of the bluespot', forall([i], z3.Implies(z3.And(i >= 0, i < n), toB(term(e)) == want), term(e), F['sum'](i)))]

    def post(self, ex, old, st, a, g, res):
        return self.kept(ex, st, a, res, shape_of(old, a.raw_bluespot_stats)[0])

    def loops(self, ex, entry, a, g):
        def inv(cc):
            out = []
            for h in sorted(cc.mod_heap):
                if isinstance(cc.st.heap.get(h), (ListC, SeqC, TreeC)):
                    out += self.kept(ex, cc.st, a, Ref(h), cc.k)
            return out
        return {(0,): LoopSpec(inv)}


def filterfunction():
    """a filter: any function of the values"""
    def call(ex, st, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported('call of the filter')
        d = st.heap[args[0].id]
        v = []
        for nm in ('min', 'max', 'sum', 'count', 'volume', 'area'):
            if not isinstance(d, DictC) or nm not in d.d or d.d[nm][0] is not None or not is_num(d.d[nm][1]):
                ex.need(st, 'the filter is given the %s of the bluespot' % nm, z3.BoolVal(False))
                raise Unsupported('values given to the filter')
            v.append(rterm(d.d[nm][1]))
        return N(FILTER(*v), 'bool')
    return BI('filter', call)


class Assemble(Contract):
    """One point feature per label, with the values of that label, at the centre of its cell."""
    quals = (Q + 'assemble_pourpoints',)
    params = ('transform', 'pp_pix', 'bluespot_stats', 'watershed_stats')
    fp = 'real'

    def setup(self, ex, st, fn):
        n = integer(st, 'nlabels', 1, 2 ** 31 - 1)
        rec = lambda p, fs, ints: ex.alloc(st, ArrC(DT('rec', tuple((f, 'i8' if f in ints else 'f8') for f in fs)), (n,), {f: z3.Function(p + f, I, I if f in ints else R) for f in fs}))
        return {'transform': transform(st), 'pp_pix': rec('pour_', MinIndex.fields, ('row', 'col')), 'bluespot_stats': rec('spot_', Stats.fields, ('count',)), 'watershed_stats': arr(ex, st, 'wshed_count', 'i8', (n,))}

    def accepts(self, ex, st, a):
        return (isinstance(a.transform, tuple) and len(a.transform) == 6 and all(is_arr(st, v, 1) for v in (a.pp_pix, a.bluespot_stats, a.watershed_stats))
                and isinstance(fn_of(st, a.pp_pix), dict) and isinstance(fn_of(st, a.bluespot_stats), dict) and not isinstance(fn_of(st, a.watershed_stats), dict))

    def pre(self, ex, st, a, g):
        n, n2, n3 = [shape_of(st, v)[0] for v in (a.pp_pix, a.bluespot_stats, a.watershed_stats)]
        t = a.transform
        return [('values for the same labels', z3.And(n == n2, n == n3, n >= 1)), ('cells have an area', z3.And(rterm(t[1]) != 0, rterm(t[5]) != 0)),
                ('every watershed has cells', forall([i], z3.Implies(z3.And(i >= 0, i < n), fn_of(st, a.watershed_stats)(i) > 0), fn_of(st, a.watershed_stats)(i)))]

    NAMES = ('bspot_id', 'cell_row', 'cell_col', 'bspot_dmax', 'bspot_area', 'bspot_vol', 'wshed_area', 'bspot_fumm')

    def result(self, ex, st, a, g):
        n = shape_of(st, a.pp_pix)[0]
        F = {nm: freshf('pp_' + nm, I, I if nm in self.NAMES[:3] else R) for nm in self.NAMES}
        x, y, d = freshf('pp_x', I, R), freshf('pp_y', I, R), freshf('pp_id', I, I)
        return ex.alloc(st, TreeC(SeqV(n, lambda i: DictV({'id': N(d(i), 'int'), 'type': 'Feature', 'geometry': DictV({'type': 'Point', 'coordinates': SeqV(z3.IntVal(2), lambda k: N(z3.If(k == 0, x(i), y(i)), 'f8'))}),
                                                         'properties': DictV({nm: N(F[nm](i), 'int' if nm in self.NAMES[:3] else 'f8') for nm in self.NAMES})}))))

    def values(self, st, a):
        P, S, C = fn_of(st, a.pp_pix), fn_of(st, a.bluespot_stats), fn_of(st, a.watershed_stats)
        return A({'row': P['row'], 'col': P['col'], 'max': S['max'], 'sum': S['sum'], 'count': S['count'], 'wshed': C, 't': [rterm(x) for x in a.transform]})

    def points(self, ex, st, v, n, val):
        """the first n features of the list are those of the labels"""
        return points(ex, st, v, n, val)

    def post(self, ex, old, st, a, g, res):
        return points(ex, st, res, shape_of(old, a.pp_pix)[0], self.values(old, a))

    def loops(self, ex, entry, a, g):
        def inv(cc):
            out = []
            for h in sorted(cc.mod_heap):
                if isinstance(cc.st.heap.get(h), (ListC, SeqC, TreeC)):
                    out += points(ex, cc.st, Ref(h), cc.k, self.values(entry, a))
            return out
        return {(0,): LoopSpec(inv)}


def points(ex, st, v, n, val):
    c = st.heap.get(v.id) if isinstance(v, Ref) else None
    s = ex.lib.as_seqv(ex, c) if isinstance(c, (ListC, SeqC, TreeC)) else None
    if s is None:
        return [('pour points are a list', z3.BoolVal(False))]
    out = [('one pour point for every label', iterm(s.n) == n)]
    e = s.at(i)
    if isinstance(e, PRef):
        e = ex.lib.deref(ex, st, e, raw=True)
    if e is None or isinstance(e, Undef):
        return out
    if not isinstance(e, DictV) or not isinstance(e.d.get('properties'), DictV) or not isinstance(e.d.get('geometry'), DictV):
        return out + [('pour points are features', n <= 0)]
    p, geo = e.d['properties'].d, e.d['geometry'].d
    if e.d.get('type') != 'Feature' or geo.get('type') != 'Point' or set(Assemble.NAMES) - set(p) or not all(is_num(p[nm]) for nm in Assemble.NAMES):
        return out + [('pour points are point features with all attributes', n <= 0)]
    x = stream.Process.pair(stream.Process(), ex, st, geo.get('coordinates'))
    if x is None:
        return out + [('points have two coordinates', n <= 0)]
    ab = lambda t: z3.If(t < 0, -t, t)
    area = ab(val.t[1]) * ab(val.t[5])
    h = z3.Q(1, 2)
    wx, wy = [f(*(val.t + [z3.ToReal(val.col(i)) + h, z3.ToReal(val.row(i)) + h])) for f in WORLD]
    dom = z3.And(i >= 0, i < n)
    ps = [t for t in (iterm(p['bspot_id']), val.row(i)) if uf(t)]
    fa = lambda t: forall([i], z3.Implies(dom, t), *ps)
    vol, ws = val.sum(i) * area, z3.ToReal(val.wshed(i)) * area
    return out + [('id', fa(z3.And(iterm(p['bspot_id']) == i, iterm(e.d['id']) == i))), ('cell', fa(z3.And(iterm(p['cell_row']) == val.row(i), iterm(p['cell_col']) == val.col(i)))),
                  ('greatest depth', fa(rterm(p['bspot_dmax']) == val.max(i))), ('area', fa(rterm(p['bspot_area']) == z3.ToReal(val.count(i)) * area)), ('volume', fa(rterm(p['bspot_vol']) == vol)),
                  ('area of the watershed', fa(rterm(p['wshed_area']) == ws)), ('fill depth', fa(rterm(p['bspot_fumm']) * ws == 1000 * vol)),
                  ('point at the centre of the cell', fa(z3.And(iterm(x[0]) == 2, rterm(x[1]) == wx, rterm(x[2]) == wy)))]


class Tool(Contract):
    """The bluespot stage: the labels written are the wet regions the filter accepts, and every label has one pour point
    with the values that the rasters give it."""
    quals = (Q + 'BluespotTool.process',)
    params = ('self',)
    fp = 'real'
    variant = 'plain,accum'
    solver_timeout = 30

    def setup(self, ex, st, fn):
        d = dims(st)
        self.filter, self.by = self.variant.split(',')
        self.given = None
        self.depth, self.flow = arr(ex, st, 'depths', 'f4', d), arr(ex, st, 'flowdir', 'u1', d)
        self.t = transform(st)
        self.src = arr(ex, st, self.by, 'f8' if self.by == 'accum' else 'f4', d)
        self.wl, self.wp, self.ww = raster_writer(ex, st), vector_writer(ex, st), raster_writer(ex, st)
        rd = lambda ref: raster_reader(ex, st, ref, self.t)
        return {'self': tool(ex, st, fn, input_depths=rd(self.depth), input_flowdir=rd(self.flow), input_bluespot_filter_function=filterfunction() if self.filter == 'filter' else None,
                             output_labeled_raster=self.wl, output_pourpoints=self.wp, output_watersheds_raster=self.ww, input_accum=rd(self.src) if self.by == 'accum' else None, input_dem=rd(self.src) if self.by == 'dem' else None)}

    def accepts(self, ex, st, a):
        return False

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, self.depth)
        F, D, S = fn_of(st, self.depth), fn_of(st, self.flow), fn_of(st, self.src)
        t1, t5 = [z3.If(x.t < 0, -x.t, x.t) for x in (self.t[1], self.t[5])]
        dr = flow.Drain(D, H, W, None, None)
        return [('cells are square within one percent', z3.And(t1 > 0, t5 > 0, (t1 - t5) * 100 < t1, (t5 - t1) * 100 < t1)), ('direction codes', flow.codes(D, H, W)),
                ('edge cells flow off the raster', forall([r, c], z3.Implies(edge(r, c, H, W), dr.leaves(r, c)), D(r, c))),
                ('edge cells are dry', z3.And(F(0, 0) == 0, forall([r, c], z3.Implies(edge(r, c, H, W), F(r, c) == 0), F(r, c)))),
                ('finite values', forall([r, c], z3.And(S(r, c) < 2 ** 128, S(r, c) > -2 ** 128), S(r, c)))]

    def modifies(self, ex, st, a, g):
        return [st.heap[w.id].attrs['written'] for w in (self.wl, self.wp, self.ww)]

    def at_call(self, ex, st, callee, a):
        if not isinstance(callee, Assemble) or not is_arr(st, a.watershed_stats, 1):
            return []
        self.given = Assemble.values(callee, st, a)
        # every label up to the greatest one has a cell, so a watershed
        C, ws = fn_of(st, a.watershed_stats), written(st, self.ww)
        ls = written(st, self.wl)
        if not ws or not ls:
            return []
        m = tree(ex, st, ls[0])
        V = fn_of(st, ws[0])
        return [('a dry cell has no label', V(0, 0) == 0), ('watershed of dry land', C(0) >= 1),
                ('a label has a cell', forall([l], z3.Implies(z3.And(l >= 1, l <= m.n), z3.And(m.inside(m.rr(l), m.rc(l)), V(m.rr(l), m.rc(l)) == l)), m.rr(l))),
                ('number of labels', z3.And(shape_of(st, a.watershed_stats)[0] == m.n + 1, shape_of(st, a.pp_pix)[0] == m.n + 1, shape_of(st, a.bluespot_stats)[0] == m.n + 1)),
                ('watershed of a label', forall([l], z3.Implies(z3.And(l >= 1, l <= m.n, m.inside(m.rr(l), m.rc(l))), C(l) >= 1), C(l)))]

    def raw(self, ex, old):
        """the regions of the depth raster"""
        F = fn_of(old, self.depth)
        ms = [m for k, m in ex.__dict__.get('ghosts', {}).items() if k[0] == 'components' and getattr(m, 'data', None) is F]
        return ms[0] if ms else None

    def folds_of(self, ex, lab, data):
        gs = [g for k, g in ex.__dict__.get('ghosts', {}).items() if k[0] == 'folds' and g.lab is lab and g.data is data]
        return gs[-1] if gs else None

    def area(self):
        t1, t5 = [z3.If(x.t < 0, -x.t, x.t) for x in (self.t[1], self.t[5])]
        return t1 * t5

    def lemmas(self, ex, old, st, a, g, res):
        if self.filter != 'filter':
            return []
        raw = self.raw(ex, old)
        l = written(st, self.wl)
        if raw is None or not l or len(l) != 1:
            return []
        fin = tree(ex, st, l[0])
        if fin is None or fin is raw:
            return []
        H, W = shape_of(old, self.depth)
        L1, L2 = raw.L, fin.L
        on = z3.And(inside(r, c, H, W), L2(r, c) != 0)
        return [Induct('a final region lies in one region', [r, c], on, fin.rk(r, c), L1(r, c) == L1(fin.rr(L2(r, c)), fin.rc(L2(r, c))), [[L1(r, c), L2(r, c)]], using=[ADJ(r, c, fin.pr(r, c), fin.pc(r, c)), fin.parent(r, c, STEP), L1(fin.pr(r, c), fin.pc(r, c)) >= 0]),
                Induct('a region kept is one final region', [r, c], on, raw.rk(r, c), L2(r, c) == L2(raw.rr(L1(r, c)), raw.rc(L1(r, c))), [[L1(r, c), L2(r, c)]], using=[ADJ(r, c, raw.pr(r, c), raw.pc(r, c)), raw.parent(r, c, STEP), z3.Implies(inside(raw.pr(r, c), raw.pc(r, c), H, W), L2(raw.pr(r, c), raw.pc(r, c)) >= 0)])]

    def post(self, ex, old, st, a, g, res):
        H, W = shape_of(old, self.depth)
        F = fn_of(old, self.depth)
        ls, ws, ps = [written(st, w) for w in (self.wl, self.ww, self.wp)]
        for nm, x in (('labels', ls), ('watersheds', ws), ('pour points', ps)):
            if x is None or len(x) != 1:
                return [('%s are written once' % nm, z3.BoolVal(False))]
        h, w = shape_of(st, ls[0])
        L, V = fn_of(st, ls[0]), fn_of(st, ws[0])
        fin, raw = tree(ex, st, ls[0]), self.raw(ex, old)
        if raw is None or fin is None or fin.L is not L:
            return [('labels are those of connected regions', z3.BoolVal(False))]
        out = [('labels: same shape', z3.And(h == H, w == W))]
        if self.filter == 'plain':
            out += [('labels: ' + nm, t) for nm, t in fin.facts(lambda r, c: F(r, c) != 0, STEP)]
        else:
            s1 = self.folds_of(ex, raw.L, F)
            if s1 is None:
                return [('values of the regions', z3.BoolVal(False))]
            x = raw.L(r, c)
            n = s1.size
            ok = accepts(s1.MIN(x, n), s1.MAX(x, n), s1.SUM(x, n), s1.CNT(x, n), self.area())
            r2, c2 = z3.Ints('r2 c2')
            out += [('regions: ' + nm, t) for nm, t in raw.facts(lambda r, c: F(r, c) != 0, STEP)]
            out += [('a region has a label exactly when the filter accepts it', forall([r, c], z3.Implies(inside(r, c, H, W), (L(r, c) != 0) == z3.And(F(r, c) != 0, ok)), L(r, c))),
                    ('cells have the same label exactly when they are of the same region', forall([r, c, r2, c2], z3.Implies(z3.And(inside(r, c, H, W), inside(r2, c2, H, W), L(r, c) != 0, L(r2, c2) != 0),
                                                                                                                  (L(r, c) == L(r2, c2)) == (raw.L(r, c) == raw.L(r2, c2))), [L(r, c), L(r2, c2)])),
                    ('labels are 1 to their number', z3.And(forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(L(r, c) >= 0, L(r, c) <= fin.n)), L(r, c)),
                                                            forall([l], z3.Implies(z3.And(l >= 1, l <= fin.n), z3.And(inside(fin.rr(l), fin.rc(l), H, W), L(fin.rr(l), fin.rc(l)) == l)), fin.rr(l))))]
        # the watersheds are those of the labels
        dk = [x for k, x in st.ghost.items() if k[0] == 'drain']
        if not dk:
            return out + [('watersheds of the labels', z3.BoolVal(False))]
        dr = dk[-1]
        out += [('watersheds: draining cells have the label of the first labelled cell downstream', forall([r, c], z3.Implies(z3.And(inside(r, c, H, W), dr.dr(r, c)), V(r, c) == dr.WL(r, c)), V(r, c))),
                ('watersheds: other cells keep their label', forall([r, c], z3.Implies(z3.And(inside(r, c, H, W), z3.Not(dr.dr(r, c))), V(r, c) == L(r, c)), V(r, c))),
                ('watersheds: of these directions and labels', z3.And(z3.BoolVal(dr.D is fn_of(old, self.flow)), dr.un == 0, forall([r, c], z3.Implies(inside(r, c, H, W), dr.L0(r, c) == L(r, c)), dr.L0(r, c))))]
        # pour points
        spot = self.folds_of(ex, L, F)
        wshed = self.folds_of(ex, V, None)
        src = self.source(ex, old)
        best = self.folds_of(ex, L, src) if src is not None else None
        if spot is None or wshed is None or best is None:
            return out + [('pour points of the labels', z3.BoolVal(False))]
        n = spot.size
        x = best.AMAX if self.by == 'accum' else best.AMIN
        at = lambda f: lambda l: z3.If(x(l, n) < 0, -1, f(x(l, n)))
        val = A({'row': at(best.fl.row), 'col': at(best.fl.col), 'max': lambda l: spot.MAX(l, n), 'sum': lambda l: spot.SUM(l, n), 'count': lambda l: spot.CNT(l, n), 'wshed': lambda l: wshed.CNT(l, n), 't': [v.t for v in self.t]})
        fc = st.heap.get(ps[0].id)
        if not isinstance(fc, DictC) or any(k not in fc.d or fc.d[k][0] is not None for k in ('type', 'features')) or fc.d['type'][1] != 'FeatureCollection':
            return out + [('pour points are a collection of features', z3.BoolVal(False))]
        v = self.given
        if v is not None:           # the values assembled are those of the rasters; the features have the values assembled
            fa = lambda f: forall([l], z3.Implies(z3.And(l >= 0, l <= fin.n), f(v, l) == f(val, l)), f(v, l))
            out += [('pour points: values of %s' % nm, fa(f)) for nm, f in (('cell row', lambda v, l: v.row(l)), ('cell column', lambda v, l: v.col(l)), ('greatest depth', lambda v, l: v.max(l)), ('sum of depths', lambda v, l: v.sum(l)),
                                                                            ('number of cells', lambda v, l: v.count(l)), ('cells of the watershed', lambda v, l: v.wshed(l)))]
            out += [('pour points: values of transformation', z3.And([x == y for x, y in zip(v.t, val.t)]))]
            val = v
        return out + [('pour points: ' + nm, t) for nm, t in points(ex, st, fc.d['features'][1], fin.n + 1, val)]

    def source(self, ex, old):
        """the raster the pour points are extremes of"""
        S = fn_of(old, self.src)
        if self.by == 'accum':
            return S
        T = [getattr(ct, 'lastfn', None) for ct in ex.contracts.values() if type(ct) is fill.FillNF][0]
        gs = [g for k, g in ex.__dict__.get('ghosts', {}).items() if k[0] == 'spill' and len(k) > 2 and g.dem is S]
        return T if gs else None


from vf.core import fresh, freshf
from . import stream, fill

CONTRACTS = [Components(), Filter(), Assemble(), Tool()]
