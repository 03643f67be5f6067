"""Contracts of malstroem.hyps: hypsometric histograms (C15)."""
from .features import *
from .label import Folds, folds
from vf.contract import lemma

Q = 'malstroem.hyps.'
R = z3.RealSort()
i, j, k, l, m = z3.Ints('i j k l m')
BINS = ('num_bins', 'lower_bound', 'upper_bound', 'resolution')


def binsok(v, lo, hi, res):
    """v is a histogram layout with bins of the requested width, aligned to multiples of it, that spans lo to hi"""
    if not isinstance(v, NT) or tuple(v.cls.fields) != BINS:
        return [('result is a bin layout', z3.BoolVal(False))]
    d = dict(zip(v.cls.fields, v.vals))
    n, a, b, w = [d[x] for x in BINS]
    n, a, b, w = iterm(n), rterm(a), rterm(b), rterm(w)
    f = z3.ToInt(lo / res)
    al = lambda q: a == z3.ToReal(q) * res
    return [('bins have the requested width', w == res), ('at least one bin', n >= 1), ('bins are aligned to multiples of the width', z3.Or(al(f), al(f - 1))),
            ('bounds are that many bins apart', b == a + z3.ToReal(n) * res), ('bins start at or below the lowest elevation', a <= lo), ('bins end at or above the highest elevation', b >= hi),
            ('no bin above the highest elevation or below the lowest', z3.And(lo < a + res, hi >= b - res))]


class Bins(Contract):
    """The bins have the requested width, lie at multiples of it and span the elevations."""
    quals = (Q + 'histogram_bins',)
    params = ('zmin', 'zmax', 'resolution')
    fp = 'real'

    def setup(self, ex, st, fn):
        return {'zmin': real(st, 'zmin'), 'zmax': real(st, 'zmax'), 'resolution': real(st, 'resolution')}

    def accepts(self, ex, st, a):
        return all(is_num(v) for v in (a.zmin, a.zmax, a.resolution))

    def result(self, ex, st, a, g):
        cls = ex.getglobal(st, 'mod:malstroem.hyps', 'HistogramBinsInfo')
        if not isinstance(cls, NTCls) or tuple(cls.fields) != BINS:
            raise Unsupported('layout of bins')
        return NT(cls, [N(fresh('num_bins', I), 'int')] + [N(fresh(x, R), 'f8') for x in BINS[1:]])

    def pre(self, ex, st, a, g):
        return [('resolution is positive', rterm(a.resolution) > 0), ('elevations in order', rterm(a.zmin) <= rterm(a.zmax))]

    def post(self, ex, old, st, a, g, res):
        return binsok(res, rterm(a.zmin), rterm(a.zmax), rterm(a.resolution))


BID = z3.Function('bspot_id', I, I)            # of the pour point features
POS = z3.Function('feature_of', I, I)          # the feature of a label
BC = z3.Function('cells_in_bin', I, R, R, I, I, I, I)  # label, lower bound, width, number of bins, bin, number of cells looked at


def inbin(v, a, w, n, k):
    """v lies in bin k; the last bin includes its upper bound"""
    e = lambda q: a + z3.ToReal(q) * w
    return z3.And(k >= 0, k < n, e(k) <= v, z3.Or(v < e(k + 1), z3.And(k == n - 1, v <= e(n))))


a_, w_ = z3.Reals('a w')
n_ = z3.Int('n')


def bins(g, data):
    """the number of cells of a label in a bin, over the first cells in row order"""
    t = lambda i: BC(l, a_, w_, n_, k, i)
    v = g.of(data, i)
    return [z3.ForAll([l, a_, w_, n_, k], t(0) == 0, patterns=[t(0)]),
            z3.ForAll([l, a_, w_, n_, k, i], z3.Implies(z3.And(i >= 0, i < g.size), t(i + 1) == t(i) + z3.If(z3.And(g.has(l, i), inbin(v, a_, w_, n_, k)), 1, 0)), patterns=[t(i + 1)])]


class Stats(Contract):
    """Every pour point gets the histogram of its own bluespot: the layout spans its elevations and every count is the
    number of its cells in the bin."""
    quals = (Q + 'bluespot_hypsometry_io',)
    params = ('bluespots_reader', 'dem_reader', 'pourpoints_reader', 'resolution', 'hyps_writer')
    fp = 'real'

    def setup(self, ex, st, fn):
        d = dims(st, lo=1)
        self.lab, self.dem = arr(ex, st, 'labels', 'i4', d), arr(ex, st, 'dem', 'f4', d)
        self.list, self.n = features(ex, st, {'bspot_id': lambda i: N(BID(i), 'int'), 'bspot_vol': field('bspot_vol')})
        self.res = N(z3.Real('xsize'), 'f8'), N(z3.Real('ysize'), 'f8')
        self.w = vector_writer(ex, st)
        rd = lambda ref: raster_reader(ex, st, ref, shape=tuple(d), resolution=self.res)
        return {'bluespots_reader': rd(self.lab), 'dem_reader': rd(self.dem), 'pourpoints_reader': vector_reader(ex, st, self.list), 'resolution': real(st, 'res'), 'hyps_writer': self.w}

    def accepts(self, ex, st, a):
        return False

    def ghost(self, ex, st, a):
        g = folds(ex, st, st.heap[self.lab.id], st.heap[self.dem.id])
        if ('bins', 0) not in st.ghost:
            st.ghost[('bins', 0)] = True
            for t in bins(g, g.data):
                st.assume(t)
        return g

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, self.lab)
        L, D = fn_of(st, self.lab), fn_of(st, self.dem)
        top, r0, c0 = z3.Ints('maxlabel r0 c0')
        self.top = top
        return [('resolution is positive', rterm(a.resolution) > 0),
                ('labels up to the greatest', z3.And(inside(r0, c0, H, W), L(r0, c0) == top, forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(L(r, c) >= 0, L(r, c) <= top)), L(r, c)))),
                ('every label but the background has cells', forall([l], z3.Implies(z3.And(l >= 1, l <= top), g.CNT(l, g.size) >= 1), g.CNT(l, g.size))),
                ('one pour point for every label', z3.And(forall([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(BID(i) >= 0, BID(i) <= top, POS(BID(i)) == i)), BID(i)),
                                                          forall([l], z3.Implies(z3.And(l >= 0, l <= top), z3.And(POS(l) >= 0, POS(l) < self.n, BID(POS(l)) == l)), POS(l)))),
                ('number of labels', top < 2 ** 31 - 3)]

    def modifies(self, ex, st, a, g):
        return [st.heap[self.w.id].attrs['written'], self.list]

    def on_dict(self, ex, st, m, last):
        q = z3.Int('q')
        return [('pour points by label', forall([q], z3.Implies(m.dom(q), z3.And(last(q) == POS(q), q >= 0, q <= self.top)), m.dom(q), last(q))),
                ('every feature is listed', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), m.dom(BID(i))), m.dom(BID(i)))),
                ('every label has a pour point', forall([q], z3.Implies(z3.And(q >= 0, q <= self.top), m.dom(BID(POS(q)))), POS(q)))]

    def first(self, ex, st, a, g):
        z = g.of(g.data, j)
        g2 = folds(ex, st, st.heap[self.lab.id])
        return [Induct('numbers of cells', [l, i], z3.And(i >= 0, i <= g.size), i, g.CNT(l, i) == g2.CNT(l, i), [g.CNT(l, i), g2.CNT(l, i)],
                       using=[AT(i - 1), g.CNT(l, 0) == 0, g2.CNT(l, 0) == 0] + [z3.Implies(i > 0, z3.substitute(x.steps(l, i)[0][1], (i, i - 1))) for x in (g, g2)]),
                Induct('cells of a label lie between its lowest and highest elevation', [l, i, j], z3.And(i >= 0, i <= g.size, j >= 0, j < i, g.has(l, j)), i,
                       z3.And(g.MIN(l, i) <= z, z <= g.MAX(l, i), g.CNT(l, i) >= 1), [[g.MIN(l, i), g.fl.row(j)]], using=[AT(i - 1)] + [z3.substitute(t, (i, i - 1)) for _, t in g.steps(l, i)]),
                Induct('lowest not above highest elevation', [l, i], z3.And(i >= 0, i <= g.size), i, z3.If(g.CNT(l, i) == 0, z3.And(g.MIN(l, i) == INF, g.MAX(l, i) == -INF), g.MIN(l, i) <= g.MAX(l, i)), [g.CNT(l, i)],
                       using=[AT(i - 1)] + [z3.substitute(t, (i, i - 1)) for _, t in g.steps(l, i)] + [z3.And(*[z3.substitute(t, (i, z3.IntVal(0))) for _, t in g.starts()])])]

    # what feature i holds
    FIELDS = ('hist_counts', 'hist_num_bins', 'hist_lower_bound', 'hist_upper_bound', 'hist_resolution', 'zmin', 'zmax', 'cell_area')

    def right(self, ex, st, a, g, done):
        f = {nm: prop(st, self.list, i, nm) for nm in self.FIELDS}
        dom = z3.And(i >= 0, i < self.n)
        if all(v is None for v in f.values()):
            return [('no histogram yet', forall([i], z3.Implies(dom, z3.Not(done(BID(i)))), BID(i)))]
        if any(v is None for v in f.values()):
            return [('all attributes are set', z3.BoolVal(False))]
        d = z3.And(dom, done(BID(i)))
        out = [('attributes are set', forall([i], z3.Implies(d, z3.And([z3.Not(w) for w, _ in f.values()])), BID(i)))]
        num = {nm: v for nm, (w, v) in f.items()}
        if not isinstance(num['hist_counts'], Joined) or num['hist_counts'].sep != '|' or not all(is_num(num[nm]) for nm in self.FIELDS[1:]):
            return [('attributes are numbers and a list of counts', z3.BoolVal(False))]
        nb, lo, hi, w, zmin, zmax, area = [(iterm if x == 'hist_num_bins' else rterm)(num[x]) for x in self.FIELDS[1:]]
        s = num['hist_counts'].s
        cnt = s.at(k)
        if not isinstance(cnt, StrOf):
            return [('counts are texts of numbers', z3.BoolVal(False))]
        cnt = iterm(cnt.v)
        bg = BID(i) == 0
        fg = z3.And(d, z3.Not(bg))
        res = rterm(a.resolution)
        x, y = g.MIN(BID(i), g.size), g.MAX(BID(i), g.size)
        fl = z3.ToInt(x / res)
        P = [BID(i)]
        al = lambda q: lo == z3.ToReal(q) * res
        return out + [('elevation range', forall([i], z3.Implies(d, z3.And(zmin == x, zmax == y)), *P)),
                      ('area of a cell', forall([i], z3.Implies(d, area == self.res[0].t * self.res[1].t), *P)),
                      ('background has no histogram', forall([i], z3.Implies(z3.And(d, bg), z3.And(nb == 0, s.n == 0)), *P)),
                      ('as many counts as bins, at least one', forall([i], z3.Implies(fg, z3.And(s.n == nb, nb >= 1)), *P)),
                      ('bins have the requested width', forall([i], z3.Implies(fg, w == res), *P)),
                      ('bins are aligned', forall([i], z3.Implies(fg, z3.Or(al(fl), al(fl - 1))), *P)),
                      ('bounds are that many bins apart', forall([i], z3.Implies(fg, hi == lo + z3.ToReal(nb) * res), *P)),
                      ('bins span the elevations', forall([i], z3.Implies(fg, z3.And(lo <= x, y <= hi)), *P)),
                      ('every count is the number of cells in the bin', forall([i, k], z3.Implies(z3.And(fg, k >= 0, k < nb), cnt == BC(BID(i), lo, res, nb, k, g.size)), [BID(i), cnt] if uf(cnt) else [BID(i), BC(BID(i), lo, res, nb, k, g.size)]))]

    def on_histogram(self, ex, st, n, lo, hi, w, m, f, BIN, NUM):
        a, g = ex.top.a, ex.top.g
        res = rterm(a.resolution)
        lab = self.label_of(m)
        p = i - 1
        if lab is None:
            return []
        z = g.of(g.data, i)
        q = g.CNT(lab, i)
        k1, k2 = z3.Ints('k1 k2')
        v = z3.Real('v')
        here = z3.And(i >= 0, i < g.size, g.has(lab, i))
        return [('bin width', w == res),
                ('order of the bins', forall([k1, k2], z3.Implies(k1 < k2, z3.ToReal(k1 + 1) * res <= z3.ToReal(k2) * res), [BIN(k1), BIN(k2)])),
                ('place of a cell', forall([i], z3.Implies(here, z3.And(q >= 0, q < m)), g.fl.row(i))),
                ('value of a cell', forall([i], z3.Implies(here, f(q) == z), g.fl.row(i))),
                ('range of a cell', forall([i], z3.Implies(here, z3.And(z >= lo, z <= hi)), g.fl.row(i))),
                ('its bin', forall([i, k], z3.Implies(here, (BIN(q) == k) == inbin(z, lo, res, n, k)), [g.fl.row(i), BC(lab, lo, res, n, k, i)])),
                Induct('cells in a bin', [k, i], z3.And(i >= 0, i <= g.size), i, NUM(k, q) == BC(lab, lo, res, n, k, i), [BC(lab, lo, res, n, k, i)],
                       using=[AT(p), g.CNT(lab, 0) == 0, z3.Implies(p >= 0, z3.And(z3.substitute(g.steps(l, p)[0][1], (l, lab)), NUM(k, g.CNT(lab, p) + 1) == NUM(k, g.CNT(lab, p) + 1))), g.fl.row(p) == g.fl.row(p)])]

    def label_of(self, m):
        return m.arg(0) if z3.is_app(m) and m.num_args() == 1 and m.arg(0).sort() == I else None

    def loops(self, ex, entry, a, g):
        def inv(cc):
            return [('labels are gone through', iterm(cc.n) == self.top + 1)] + self.right(ex, cc.st, a, g, lambda l: l < cc.k) + self.rest(ex, entry, cc.st)
        return {(0,): LoopSpec(inv)}

    def rest(self, ex, old, st):
        return [('nothing else changes', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), unchanged(ex, old, st, self.list, i, self.FIELDS)), BID(i)))]

    def post(self, ex, old, st, a, g, res):
        l = written(st, self.w)
        if l is None or len(l) != 1:
            return [('features are written once', z3.BoolVal(False))]
        return self.right(ex, st, a, g, lambda l: z3.BoolVal(True)) + self.rest(ex, old, st)


class Read(Contract):
    """What is written as attributes is read back as the same histogram."""
    quals = (Q + 'hypsometrystats_from_flatdict',)
    params = ('d',)

    def setup(self, ex, st, fn):
        num = lambda nm, k='f8': N((z3.Int if k == 'int' else z3.Real)(nm), k)
        cnt = z3.Function('count', I, I)
        self.d = {nm: num(nm, 'int' if nm == 'hist_num_bins' else 'f8') for nm in Stats.FIELDS[1:7]}
        self.cnt = lambda k: cnt(k)
        d = dict(self.d, hist_counts=Joined('|', SeqV(self.d['hist_num_bins'].t, lambda k: StrOf(N(cnt(k), 'int')))))
        return {'d': ex.alloc(st, DictC({nm: (None, v) for nm, v in d.items()}))}

    def accepts(self, ex, st, a):
        return False

    def pre(self, ex, st, a, g):
        return [('number of bins', self.d['hist_num_bins'].t >= 0)]

    def post(self, ex, old, st, a, g, res):
        def get(v, f):
            return dict(zip(v.cls.fields, v.vals)).get(f) if isinstance(v, NT) else None
        h = get(res, 'zhistogram')
        b, c = get(h, 'bins'), get(h, 'counts')
        vals = [get(b, f) for f in BINS] + [get(res, 'zmin'), get(res, 'zmax')]
        if not all(is_num(v) for v in vals):
            return [('result is a histogram', z3.BoolVal(False))]
        names = ('hist_num_bins', 'hist_lower_bound', 'hist_upper_bound', 'hist_resolution', 'zmin', 'zmax')
        out = [('%s is read back' % nm, (iterm if nm == 'hist_num_bins' else rterm)(v) == self.d[nm].t) for nm, v in zip(names, vals)]
        it = ex.lib.iterable(ex, st, c)
        nb = self.d['hist_num_bins'].t
        if isinstance(it, list):
            return out + [('as many counts as bins', nb == len(it))] + [('count %d is read back' % q, iterm(v) == self.cnt(z3.IntVal(q))) for q, (w, v) in enumerate(it)]
        return out + [('as many counts as bins', it.n == nb), ('counts are read back', forall([k], z3.Implies(z3.And(k >= 0, k < nb), iterm(it.item(ex, st, k)) == self.cnt(k)), self.cnt(k)))]


class Sum(Contract):
    """Lemma: when the bins span the elevations of a label, the counts of all bins sum to the number of its cells."""

    def prove(self, ex):
        ex.topname = 'every cell is counted once'

        class F(object):
            pass
        fl = F()
        fl.size, fl.row, fl.col, fl.idx = z3.Int('size'), z3.Function('rowof', I, I), z3.Function('colof', I, I), z3.Function('idx', I, I, I)
        fl.shape = z3.Int('H'), z3.Int('W')
        g = Folds(fl, z3.Function('lab', I, I, I), z3.Function('data', I, I, R))
        st = State()
        L, nb, lo, w = z3.Int('L'), z3.Int('nb'), z3.Real('lo'), z3.Real('w')
        z = lambda i: g.of(g.data, i)
        e = lambda q: lo + z3.ToReal(q) * w
        for t in bins(g, g.data) + [nb >= 1, w > 0, fl.size >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < fl.size, g.has(L, i)), z3.And(lo <= z(i), z(i) <= e(nb))), patterns=[fl.row(i)])]:
            st.assume(t)
        x, y = z3.Reals('x y')
        # the bin of a value: exists and is the only one
        BIN = z3.Function('binof', R, I)
        q, q2 = z3.Ints('q q2')
        u = State()
        u.assume(nb >= 1)
        u.assume(w > 0)
        t = (x - lo) / w
        u.assume(lo <= x)
        u.assume(x <= e(nb))
        y = z3.Real('quotient')
        u.assume(y * w == x - lo)
        fy = z3.ToInt(y)
        lemma(ex, u, ('quotient is natural', z3.And(y >= 0, y <= z3.ToReal(nb))))
        lemma(ex, u, ('lower edge', z3.ToReal(fy) * w <= x - lo))
        lemma(ex, u, ('upper edge', x - lo < z3.ToReal(fy + 1) * w))
        lemma(ex, u, ('a value in range lies in a bin', z3.Implies(fy < nb, inbin(x, lo, w, nb, fy))))
        lemma(ex, u, ('the greatest value lies in the last bin', z3.Implies(fy >= nb, inbin(x, lo, w, nb, nb - 1))))
        u = State()
        u.assume(w > 0)
        ex.need(u, 'edges are in order', z3.Implies(q < q2, z3.ToReal(q + 1) * w <= z3.ToReal(q2) * w), 'lemma')
        u.assume(z3.Implies(q < q2, z3.ToReal(q + 1) * w <= z3.ToReal(q2) * w))
        u.assume(z3.Implies(q2 < q, z3.ToReal(q2 + 1) * w <= z3.ToReal(q) * w))
        ex.need(u, 'a value lies in one bin only', z3.Implies(z3.And(inbin(x, lo, w, nb, q), inbin(x, lo, w, nb, q2)), q == q2), 'lemma')
        IN = z3.Function('in_bin', R, I, B)       # inbin(v, lo, w, nb, k), hidden
        st.assume(z3.ForAll([x, q], IN(x, q) == z3.And(x >= lo, x <= e(nb), BIN(x) == q), patterns=[IN(x, q)]))
        st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= lo, x <= e(nb)), z3.And(BIN(x) >= 0, BIN(x) < nb)), patterns=[BIN(x)]))
        # counts by the hidden predicate, and sums over the bins
        C, T = z3.Function('counted', I, I, I), z3.Function('total', I, I, I)
        n1 = lambda i: C(q, i)
        for t in (z3.ForAll([q], C(q, 0) == 0, patterns=[C(q, 0)]),
                  z3.ForAll([q, i], z3.Implies(z3.And(i >= 0, i < fl.size), C(q, i + 1) == C(q, i) + z3.If(z3.And(g.has(L, i), IN(z(i), q)), 1, 0)), patterns=[C(q, i + 1)]),
                  z3.ForAll([i], T(0, i) == 0, patterns=[T(0, i)]),
                  z3.ForAll([q, i], z3.Implies(q >= 0, T(q + 1, i) == T(q, i) + C(q, i)), patterns=[T(q + 1, i)]),
                  g.CNT(L, 0) == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < fl.size), g.CNT(L, i + 1) == g.CNT(L, i) + z3.If(g.has(L, i), 1, 0)), patterns=[g.CNT(L, i + 1)])):
            st.assume(t)
        p = i - 1
        here = z3.And(g.has(L, p), p >= 0)
        lemma(ex, st, Induct('no cells, no counts', [q], z3.And(q >= 0, q <= nb), q, T(q, 0) == 0, [T(q, 0)], using=[z3.Implies(q >= 1, T(q, 0) == T(q - 1, 0) + C(q - 1, 0)), T(0, 0) == 0, C(q - 1, 0) == 0]))
        lemma(ex, st, Induct('a cell adds one to the bins up to its own', [q, i], z3.And(q >= 0, q <= nb, i >= 1, i <= fl.size), q,
                             T(q, i) == T(q, p) + z3.If(z3.And(g.has(L, p), BIN(z(p)) < q), 1, 0), [T(q, i)],
                             using=[T(0, i) == 0, T(0, p) == 0, z3.Implies(q >= 1, z3.And(T(q, i) == T(q - 1, i) + C(q - 1, i), T(q, p) == T(q - 1, p) + C(q - 1, p),
                                    C(q - 1, i) == C(q - 1, p) + z3.If(z3.And(g.has(L, p), IN(z(p), q - 1)), 1, 0))), fl.row(p) == fl.row(p), BIN(z(p)) == BIN(z(p))]))
        lemma(ex, st, Induct('all cells are counted', [i], z3.And(i >= 0, i <= fl.size), i, T(nb, i) == g.CNT(L, i), [T(nb, i)],
                             using=[T(nb, 0) == 0, g.CNT(L, 0) == 0, z3.Implies(i >= 1, z3.And(T(nb, i) == T(nb, p) + z3.If(z3.And(g.has(L, p), BIN(z(p)) < nb), 1, 0), g.CNT(L, i) == g.CNT(L, p) + z3.If(g.has(L, p), 1, 0))),
                                    fl.row(p) == fl.row(p), BIN(z(p)) == BIN(z(p))]))


CONTRACTS = [Bins(), Stats(), Read(), Sum()]
