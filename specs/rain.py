"""Contracts of malstroem.rain (C13)."""
from .features import *
from . import label
from .label import folds

Q = 'malstroem.rain.'
R = z3.RealSort()
i = z3.Int('i')
FIELDS = {'nodeid': field('nodeid', 'int'), 'nodetype': nodetype, 'dstrnodeid': field('dstrnodeid', 'int', True), 'bspot_id': field('bspot_id', 'int', True),
          'bspot_vol': field('bspot_vol', 'f8', True), 'wshed_area': field('wshed_area')}
NODE = z3.Function('nodeid', I, I)
AREA = z3.Function('wshed_area', I, R)


def factor_close(v, p, k):
    """v is p times k up to the rounding of the decimal constant"""
    d = v - p * k
    ap = z3.If(p >= 0, p, -p)
    return z3.And(d * 10 ** 15 <= ap, -d * 10 ** 15 <= ap)


class Simple(Contract):
    """Uniform rain: every node receives its watershed area times the rain depth."""
    quals = (Q + 'SimpleVolumeTool.process',)
    params = ('self',)
    fp = 'real'

    def setup(self, ex, st, fn):
        self.list, self.n = features(ex, st, FIELDS)
        self.w = vector_writer(ex, st)
        self.mm = z3.Real('rainmm')
        return {'self': tool(ex, st, fn, input_nodes=vector_reader(ex, st, self.list), output_volumedata=self.w, output_volume_attribute='inputv', rainmm=N(self.mm, 'f8'))}

    def accepts(self, ex, st, a):
        return False

    def modifies(self, ex, st, a, g):
        return [st.heap[self.w.id].attrs['written'], self.list]

    def right(self, i, v):
        return factor_close(v, AREA(i) * self.mm, z3.RealVal(1) / 1000)

    def volumes(self, ex, old, st, n):
        """the first n features have their volume and are otherwise what they were"""
        p = prop(st, self.list, i, 'inputv')
        q = prop(old, self.list, i, 'inputv')
        if p is None:
            return [('the attribute is set', n == 0)]
        if not is_num(p[1]):
            return [('the attribute is a number', z3.BoolVal(False))]
        missing, v = p[0], rterm(p[1])
        pats = [NODE(i), AREA(i)] + ([v] if uf(v) else []) + ([missing] if uf(missing) else [])
        dom = z3.And(i >= 0, i < self.n)
        out = [('volume of every node', forall([i], z3.Implies(z3.And(dom, i < n), z3.And(z3.Not(missing), self.right(i, v))), *pats)),
               ('nothing else changes', forall([i], z3.Implies(dom, unchanged(ex, old, st, self.list, i, ('inputv',))), *pats))]
        return out

    def lemmas(self, ex, old, st, a, g, res):
        return []

    def post(self, ex, old, st, a, g, res):
        l = written(st, self.w)
        if l is None or len(l) != 1 or l[0].id != self.list.id:
            return [('the nodes are written once', z3.BoolVal(False))]
        return self.volumes(ex, old, st, self.n)

    def loops(self, ex, entry, a, g):
        return {1: LoopSpec(lambda cc: self.volumes(ex, entry, cc.st, cc.k) if self.list.id in cc.mod_heap else [])}


class Raster(Simple):
    """Precipitation raster: every node receives the sum over the cells with its label, in cubic metres."""
    quals = (Q + 'RasterVolumeTool.process',)

    def setup(self, ex, st, fn):
        self.list, self.n = features(ex, st, FIELDS)
        self.w = vector_writer(ex, st)
        d = dims(st, lo=1)
        self.lab = arr(ex, st, 'labels', 'i4', d)
        self.rain = arr(ex, st, 'precip', 'f4', d)
        self.t = transform(st)
        cls = ex.getglobal(st, 'mod:malstroem.rain', 'Unit')
        self.u = z3.Int('unit')
        self.names = ['mm', 'l', 'm3']
        st.assume(z3.And(self.u >= 0, self.u < 3))
        self.lists = folds(ex, st, st.heap[self.lab.id], st.heap[self.rain.id])
        return {'self': tool(ex, st, fn, input_nodes=vector_reader(ex, st, self.list), input_bluespots=raster_reader(ex, st, self.lab, self.t), input_precip=raster_reader(ex, st, self.rain, self.t),
                             input_precip_unit=SymEnum(cls, self.names, self.u), output_volumedata=self.w, output_volume_attribute='inputv')}

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, self.lab)
        L = fn_of(st, self.lab)
        return [('labels are natural', forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(L(r, c) >= 0, L(r, c) < 2 ** 31 - 2)), L(r, c))),
                ('node ids are natural', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), NODE(i) >= 0), NODE(i)))]

    def total(self, l):
        return self.lists.SUM(l, self.lists.size)

    def right(self, i, v):
        s = self.total(NODE(i))
        w, h = self.t[1].t, self.t[5].t
        area = z3.If(w >= 0, w, -w) * z3.If(h >= 0, h, -h)
        th = z3.RealVal(1) / 1000
        return z3.And(z3.Implies(self.u == 0, factor_close(v, s * area, th)), z3.Implies(self.u == 1, factor_close(v, s, th)), z3.Implies(self.u == 2, v == s))

    def first(self, ex, st, a, g):
        f = self.lists
        l, k = z3.Ints('l k')
        seen = freshf('seen', I, I)             # ghost: a cell with the label, if there is one
        st.assume(forall([l, k], z3.Implies(z3.And(AT(k), k >= 0, k < f.size, f.has(l, k)), z3.And(seen(l) >= 0, seen(l) < f.size, f.has(l, seen(l)))), [AT(k), f.SUM(l, k)]))
        p = k - 1
        return [Induct('a label without cells has no water', [l, k], z3.And(k >= 0, k <= f.size), k, z3.Or(f.SUM(l, k) == 0, z3.And(seen(l) >= 0, seen(l) < f.size, f.has(l, seen(l)))), [f.SUM(l, k)],
                       using=[AT(p), AT(seen(l)), f.SUM(l, 0) == 0, z3.Implies(z3.And(p >= 0, p < f.size), [t for h, t in f.steps(l, p) if h is f.SUM][0])])]


CONTRACTS = [Simple(), Raster()]
