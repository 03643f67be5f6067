"""Contracts of malstroem.approx: final extents and depths (C17)."""
from .features import *
from . import label
from vf.lib import Lib

Q = 'malstroem.approx.'
R = z3.RealSort()
i, l = z3.Ints('i l')
lowest = -INF


def is_map(st, v):
    return isinstance(v, Ref) and isinstance(st.heap.get(v.id), MapC)


class ToList(Contract):
    """The list whose entry is the level of the label, for all labels up to the greatest; the background has its own value."""
    quals = (Q + '_labelvaluedict_to_list',)
    params = ('labelvaluedict', 'background', 'set_background_to')

    def setup(self, ex, st, fn):
        dom, lv = z3.Function('haslevel', I, B), z3.Function('level', I, R)
        return {'labelvaluedict': ex.alloc(st, MapC(lambda k: dom(k), lambda k: N(lv(k), 'f8'))), 'background': integer(st, 'background'), 'set_background_to': N(lowest, 'f8')}

    def accepts(self, ex, st, a):
        return is_map(st, a.labelvaluedict) and is_num(a.background) and is_num(a.set_background_to)

    def ghost(self, ex, st, a):
        m = st.heap[a.labelvaluedict.id]
        n, key, pos = ex.lib.map_enum(ex, st, m)
        return m, n, key

    def pre(self, ex, st, a, g):
        m, n, key = g
        k, k2 = z3.Ints('k k2')
        return [('there is a level', n >= 1), ('labels are natural', forall([k], z3.Implies(m.dom(k), k >= 0), m.dom(k))),
                ('every label up to the greatest has a level', forall([k, k2], z3.Implies(z3.And(m.dom(k2), k >= 0, k <= k2, k != iterm(a.background)), m.dom(k)), [m.dom(k2), m.dom(k)]))]

    def result(self, ex, st, a, g):
        f = freshf('levels', I, R)
        return ex.alloc(st, SeqC(fresh('nlevels', I), lambda k: N(f(k), 'f8')))

    def seq(self, ex, st, res):
        c = st.heap.get(res.id) if isinstance(res, Ref) else None
        if isinstance(c, ListC):
            c = ex.to_seq(c)
        return c if isinstance(c, SeqC) else None

    def entries(self, ex, st, a, g, c, n):
        m = g[0]
        k = z3.Int('k')
        v = c.at(k)
        if v is None:
            return [('one entry for each label', n == 0)]
        if not is_num(v):
            return [('levels are numbers', z3.BoolVal(False))]
        t = rterm(v)
        return [('one entry for each label', iterm(c.n) == n),
                ('level of the label', forall([k], z3.Implies(z3.And(k >= 0, k < n), t == z3.If(k == iterm(a.background), rterm(a.set_background_to), rterm(m.val(k)))), t))]

    def post(self, ex, old, st, a, g, res):
        c = self.seq(ex, st, res)
        if c is None:
            return [('result is a list', z3.BoolVal(False))]
        k = z3.Int('k')
        m = g[0]
        n = iterm(c.n)
        return self.entries(ex, st, a, g, c, n) + [('a level for every label', forall([k], z3.Implies(m.dom(k), k < n), m.dom(k))), ('as many as the greatest label needs', m.dom(n - 1))]

    def loops(self, ex, entry, a, g):
        def inv(cc):
            out = []
            for h in sorted(cc.mod_heap):
                c = cc.st.heap.get(h)
                if isinstance(c, (SeqC, ListC)):
                    out += self.entries(ex, cc.st, a, g, ex.to_seq(c), cc.k)
            return out
        return {1: LoopSpec(inv)}


class Memory(Contract):
    """Depth is the level minus the terrain, cut at zero; labels stay where the level is not below the terrain."""
    quals = (Q + 'approx_bluespots',)
    params = ('bluespot_labels', 'bluespot_water_levels', 'dem', 'background_label')

    def rasters(self, ex, st):
        d = dims(st, lo=1)
        self.lab = arr(ex, st, 'labels', 'i4', d)
        self.dem = arr(ex, st, 'dem', 'f4', d)
        self.dom, self.lv = z3.Function('haslevel', I, B), z3.Function('level', I, R)
        self.bg = integer(st, 'background', -2 ** 31, 2 ** 31 - 1)

    def setup(self, ex, st, fn):
        self.rasters(ex, st)
        self.map = ex.alloc(st, MapC(lambda k: self.dom(k), lambda k: N(self.lv(k), 'f8')))
        return {'bluespot_labels': self.lab, 'bluespot_water_levels': self.map, 'dem': self.dem, 'background_label': self.bg}

    def accepts(self, ex, st, a):
        return False

    def levels(self, ex, st):
        """facts about the levels given"""
        k, k2 = z3.Ints('k k2')
        return [('there is a level', self.dom(z3.Int('somelabel')))]

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, self.lab)
        L, d = fn_of(st, self.lab), fn_of(st, self.dem)
        k, k2 = z3.Ints('k k2')
        dom, bg = self.dom, iterm(self.bg)
        big = z3.Int('greatest')
        return self.levels(ex, st) + [
                ('labels are natural', forall([k], z3.Implies(dom(k), z3.And(k >= 0, k <= big)), dom(k))), ('greatest label with a level', dom(big)),
                ('every label up to the greatest has a level', forall([k], z3.Implies(z3.And(k >= 0, k <= big, k != bg), dom(k)), dom(k))),
                ('levels and elevations are finite', z3.And(forall([k], z3.And(self.lv(k) < INF, self.lv(k) > lowest), self.lv(k)), forall([r, c], z3.And(d(r, c) < INF, d(r, c) > lowest), d(r, c)))),
                ('(floats) the difference of different numbers is not rounded to zero', forall([k, r, c], z3.Implies(z3.And(inside(r, c, H, W), self.lv(k) < d(r, c)), R8(self.lv(k) - d(r, c)) < 0), R8(self.lv(k) - d(r, c)), [self.lv(k), d(r, c)])),
                ('cells are labelled by the background or a label with a level', forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(L(r, c) >= 0, L(r, c) <= big)), L(r, c)))]

    def modifies(self, ex, st, a, g):
        return [self.lab]

    def answer(self, ex, old, st, depths, labels):
        """what the depth and label rasters must be"""
        H, W = shape_of(old, self.lab)
        L, d = fn_of(old, self.lab), fn_of(old, self.dem)
        bg = iterm(self.bg)
        lv = self.lv(L(r, c))
        wet = z3.And(L(r, c) != bg, lv >= d(r, c))
        out = []
        for nm, x, want, kinds in (('depth', depths, lambda v: v == z3.If(wet, R8(lv - d(r, c)), 0), FLTK), ('label', labels, lambda v: v == z3.If(wet, L(r, c), bg), INTK)):
            if x is None:
                continue
            if not is_arr(st, x, 2) or st.heap[x.id].dt.k not in kinds:
                return [('%ss are a raster' % nm, z3.BoolVal(False))]
            h, w = shape_of(st, x)
            f = fn_of(st, x)
            out += [('%ss: same shape' % nm, z3.And(h == H, w == W)),
                    ('%s of every cell' % nm, forall([r, c], z3.Implies(inside(r, c, H, W), want(f(r, c))), f(r, c), L(r, c)))]
        return out

    def post(self, ex, old, st, a, g, res):
        if not isinstance(res, tuple) or len(res) != 2:
            return [('result is a pair', z3.BoolVal(False))]
        return self.answer(ex, old, st, res[1], res[0])


class Files(Memory):
    """The same through readers and writers."""
    quals = (Q + 'approx_bluespots_io',)
    params = ('bluespot_labels_reader', 'bluespot_water_levels_reader', 'dem_reader', 'approx_depths_writer', 'approx_bluespot_labels_writer', 'background_label')
    variant = 'both'

    def setup(self, ex, st, fn):
        self.rasters(ex, st)
        self.list, self.n = features(ex, st, {'nodetype': nodetype, 'bspot_id': field('bspot_id', 'int'), 'approx_z': field('approx_z')})
        self.owner = z3.Function('owner', I, I)
        self.wd = raster_writer(ex, st) if self.variant != 'labels' else None
        self.wl = raster_writer(ex, st) if self.variant != 'depths' else None
        return {'bluespot_labels_reader': raster_reader(ex, st, self.lab), 'bluespot_water_levels_reader': vector_reader(ex, st, self.list), 'dem_reader': raster_reader(ex, st, self.dem),
                'approx_depths_writer': self.wd, 'approx_bluespot_labels_writer': self.wl, 'background_label': self.bg}

    def levels(self, ex, st):
        ID, Z = z3.Function('bspot_id', I, I), z3.Function('approx_z', I, R)
        at = z3.And(i >= 0, i < self.n, ISPP(i))
        k = z3.Int('k')
        o = self.owner(k)
        return [('levels come from the pour points', forall([i], z3.Implies(at, z3.And(self.dom(ID(i)), self.owner(ID(i)) == i)), ID(i))),
                ('every level comes from one pour point', forall([k], z3.Implies(self.dom(k), z3.And(o >= 0, o < self.n, ISPP(o), ID(o) == k, self.lv(k) == Z(o))), self.dom(k), self.lv(k)))]

    def modifies(self, ex, st, a, g):
        return [st.heap[w.id].attrs['written'] for w in (self.wd, self.wl) if w is not None]

    def on_dict(self, ex, st, m, last):
        k = z3.Int('k')
        return [('the keys are the labels with a level', forall([k], m.dom(k) == self.dom(k), m.dom(k))),
                ('the values are the levels', forall([k], z3.Implies(m.dom(k), rterm(m.val(k)) == self.lv(k)), m.dom(k), last(k)))]

    def post(self, ex, old, st, a, g, res):
        got = []
        for w in (self.wd, self.wl):
            l = written(st, w) if w is not None else [None]
            if l is None or len(l) != 1:
                return [('every output is written once', z3.BoolVal(False))]
            got.append(l[0])
        return self.answer(ex, old, st, got[0], got[1])


CONTRACTS = [ToList(), Memory(), Files()]
