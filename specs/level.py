"""Contracts of malstroem.approx: water levels from stored volumes (C16)."""
from .features import *
from vf.contract import lemma

Q = 'malstroem.approx.'
R = z3.RealSort()
i, j, k, h, b = z3.Ints('i j k h b')
ID, V = z3.Function('node_bspot', I, I), z3.Function('v', I, R)                     # of the final state nodes
BS, CAP, DMAX = z3.Function('bspot_id', I, I), z3.Function('bspot_vol', I, R), z3.Function('bspot_dmax', I, R)      # of the bluespots
AREA, RES, LB, UB = [z3.Function(n, I, R) for n in ('cell_area', 'hist_resolution', 'hist_lower_bound', 'hist_upper_bound')]
ZMIN, ZMAX = z3.Function('zmin', I, R), z3.Function('zmax', I, R)
NB = z3.Function('hist_num_bins', I, I)
CNT = z3.Function('hist_count', I, I, I)
HOF = z3.Function('histogram_of', I, I)        # the bluespot feature with an id
BELOW = z3.Function('cells_below', I, I, I)    # cells in the bins below
CUM = z3.Function('volume_below', I, I, R)     # volume of the curve at the centre of a bin
SEG = z3.Function('segment_of', I, R, I)       # the segment of the curve a volume lies on


def top(h):
    """the last point of the curve"""
    return z3.If(NB(h) >= 2, NB(h) - 1, 1)


XP, YP = z3.Function('curve_volume', I, I, R), z3.Function('curve_z', I, I, R)


def points():
    """the points of the curve"""
    return [z3.ForAll([h, k], XP(h, k) == z3.If(k <= 0, 0, z3.If(k >= top(h), CAP(h), CUM(h, k))), patterns=[XP(h, k)]),
            z3.ForAll([h, k], YP(h, k) == z3.If(k <= 0, ZMIN(h), z3.If(k >= top(h), ZMAX(h), z3.ToReal(k) * RES(h) + LB(h) + RES(h) * z3.Q(1, 2))), patterns=[YP(h, k)])]


def curve(h, v):
    """elevation the curve gives for the volume"""
    s = SEG(h, v)
    return z3.If(v < 0, ZMIN(h), z3.If(v >= CAP(h), ZMAX(h), LINT(v, XP(h, s), XP(h, s + 1), YP(h, s), YP(h, s + 1))))


def axioms():
    ok = z3.And(k >= 0, k < NB(h))
    v = z3.Real('vol')
    s = SEG(h, v)
    return points() + [z3.ForAll([h], z3.And(BELOW(h, 0) == 0, CUM(h, 0) == 0), patterns=[NB(h)]),
            z3.ForAll([h, k], z3.Implies(ok, BELOW(h, k + 1) == BELOW(h, k) + CNT(h, k)), patterns=[CNT(h, k)]),
            z3.ForAll([h, k], z3.Implies(k >= 0, CUM(h, k + 1) == CUM(h, k) + AREA(h) * RES(h) * BELOW(h, k + 1)), patterns=[CUM(h, k + 1)]),
            z3.ForAll([h, v], z3.Implies(z3.And(CONS(h), v >= 0, v < CAP(h)), z3.And(s >= 0, s < top(h), XP(h, s) <= v, v < XP(h, s + 1))), patterns=[s])]


CONS = z3.Function('consistent', I, B)


def consistency():
    """what CONS stands for: a histogram with cells in its first bin, and a capacity not below the volume at the last bin but one"""
    return z3.ForAll([h], CONS(h) == z3.And(NB(h) >= 1, AREA(h) > 0, RES(h) > 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NB(h)), CNT(h, k) >= 0), patterns=[CNT(h, k)]), CNT(h, 0) >= 1,
                                            CAP(h) >= 0, z3.Implies(NB(h) >= 2, CUM(h, NB(h) - 2) <= CAP(h)), ZMIN(h) <= ZMAX(h), ZMAX(h) <= ZMIN(h) + DMAX(h),
                                            z3.Implies(NB(h) == 1, ZMIN(h) >= LB(h)), ZMIN(h) <= LB(h) + RES(h), ZMAX(h) >= LB(h) + RES(h) * (z3.ToReal(NB(h)) - 1)), patterns=[CONS(h)])


def grows():
    """the volumes of a consistent curve do not decrease"""
    ok = z3.And(CONS(h), k >= 0, k <= NB(h))
    return [Induct('numbers of cells', [h, k], ok, k, BELOW(h, k) >= z3.If(k >= 1, 1, 0), [BELOW(h, k)], using=[z3.Implies(k > 0, BELOW(h, k) == BELOW(h, k - 1) + CNT(h, k - 1)), CNT(h, k - 1) == CNT(h, k - 1), CNT(h, 0) >= z3.If(CONS(h), 1, 0)]),
            ('volume of a step', forall([h, k], z3.Implies(ok, AREA(h) * RES(h) * BELOW(h, k) >= 0), BELOW(h, k))),
            Induct('curve grows', [h, j, k], z3.And(CONS(h), j >= 0, j <= k, k < NB(h)), k, z3.And(CUM(h, j) <= CUM(h, k), CUM(h, j) >= 0), [[CUM(h, j), CUM(h, k)]],
                   using=[z3.Implies(k > 0, CUM(h, k) == CUM(h, k - 1) + AREA(h) * RES(h) * BELOW(h, k)), CUM(h, 0) == 0, AREA(h) * RES(h) * BELOW(h, k) >= z3.If(z3.And(ok), 0, AREA(h) * RES(h) * BELOW(h, k))]),
            ('points of the curve', forall([h, j, k], z3.Implies(z3.And(CONS(h), j >= 0, j <= k, k <= top(h)), XP(h, j) <= XP(h, k)), [XP(h, j), XP(h, k)]))]


class Levels(Contract):
    """Every pour point node gets the level of its volume, and the nodes written are the pour point nodes."""
    quals = (Q + 'approx_water_level_io',)
    params = ('finalvols_reader', 'hyps_reader', 'levels_writer')
    fp = 'real'

    def setup(self, ex, st, fn):
        self.list, self.n = features(ex, st, {'nodeid': field('nodeid', 'int'), 'nodetype': nodetype, 'bspot_id': lambda i: Opt(z3.Not(ISPP(i)), N(ID(i), 'int')), 'v': field('v')})
        num = lambda f: (lambda h: N(f(h), 'f8'))
        self.hyps, self.m = features(ex, st, {'bspot_id': lambda h: N(BS(h), 'int'), 'bspot_vol': num(CAP), 'bspot_dmax': num(DMAX), 'cell_area': num(AREA), 'hist_resolution': num(RES),
                                             'hist_lower_bound': num(LB), 'hist_upper_bound': num(UB), 'zmin': num(ZMIN), 'zmax': num(ZMAX), 'hist_num_bins': lambda h: N(NB(h), 'int'),
                                             'hist_counts': lambda h: Joined('|', SeqV(NB(h), lambda k: StrOf(N(CNT(h, k), 'int'))))}, 'nbluespots')
        self.w = vector_writer(ex, st)
        return {'finalvols_reader': vector_reader(ex, st, self.list), 'hyps_reader': vector_reader(ex, st, self.hyps), 'levels_writer': self.w}

    def accepts(self, ex, st, a):
        return False

    def ghost(self, ex, st, a):
        for t in axioms() + [consistency()]:
            st.assume(t)

    def pre(self, ex, st, a, g):
        o = HOF(ID(i))
        return [('every bluespot has one histogram', forall([h], z3.Implies(z3.And(h >= 0, h < self.m), HOF(BS(h)) == h), BS(h))),
                ('every pour point has a consistent histogram', forall([i], z3.Implies(z3.And(i >= 0, i < self.n, ISPP(i)), z3.And(o >= 0, o < self.m, BS(o) == ID(i), CONS(o))), ID(i)))]

    def modifies(self, ex, st, a, g):
        return [st.heap[self.w.id].attrs['written'], self.list]

    def on_dict(self, ex, st, m, last):
        q = z3.Int('q')
        return [('histograms by bluespot', forall([q], z3.Implies(m.dom(q), z3.And(last(q) == HOF(q), HOF(q) >= 0, HOF(q) < self.m, BS(HOF(q)) == q)), m.dom(q), last(q))),
                ('bluespots with a histogram', forall([h], z3.Implies(z3.And(h >= 0, h < self.m), m.dom(BS(h))), BS(h)))]

    def first(self, ex, st, a, g):
        return grows()

    def owner(self, t, fns):
        """the bluespot whose numbers occur in the term"""
        todo, seen = [t], set()
        while todo:
            u = todo.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app(u) and any(u.decl().eq(f) for f in fns) and not any(z3.is_var(x) for x in u.children()):
                return u.arg(0)
            todo += u.children()
        return None

    def on_cumsum(self, ex, st, S, n, item):
        p = k - 1
        for fns, what, up in (((AREA, RES), lambda o, k: CUM(o, k), lambda o: AREA(o) * RES(o) * BELOW(o, k)), ((CNT,), lambda o, k: z3.ToReal(BELOW(o, k + 1)) if S.range() == R else BELOW(o, k + 1), None)):
            o = self.owner(item(k), fns)
            if o is None:
                continue
            dom = z3.And(k >= 0, k < n)
            out = []
            if up is not None:
                out.append(('volume of a bin', forall([k], z3.Implies(z3.And(dom, k < NB(o)), item(k) == up(o)))))
            use = [z3.Implies(z3.And(p >= 0, k < n), S(k) == S(p) + item(k)), z3.Implies(n > 0, S(0) == item(z3.IntVal(0))), BELOW(o, 0) == 0, CUM(o, 0) == 0, z3.Implies(z3.And(k >= 0, k < NB(o)), BELOW(o, k + 1) == BELOW(o, k) + CNT(o, k))]
            if up is not None:
                use += [z3.Implies(z3.And(dom, k < NB(o)), item(k) == up(o)), z3.Implies(p >= 0, CUM(o, p + 1) == CUM(o, p) + AREA(o) * RES(o) * BELOW(o, p + 1))]
            out.append(Induct('running sums', [k], z3.And(dom, k < NB(o)), k, S(k) == what(o, k), [S(k)], using=use))
            return out
        return []

    def on_interp(self, ex, st, m, xs, ys):
        self.at = o = self.owner(ys(k), (ZMIN, ZMAX, RES, LB))
        if o is None:
            return []
        dom = z3.And(k >= 0, k < m)
        return [('number of points', m == top(o) + 1), ('volumes of the curve', forall([k], z3.Implies(dom, xs(k) == XP(o, k)), XP(o, k))), ('elevations of the curve', forall([k], z3.Implies(dom, ys(k) == YP(o, k)), YP(o, k)))]

    def on_interpolated(self, ex, st, n, x, seg, xs):
        o, v, s = self.at, x(z3.IntVal(0)), seg(z3.IntVal(0))
        if o is None:
            return []
        return [('the segment', z3.Implies(z3.And(v >= 0, v < CAP(o), XP(o, s) == XP(o, s), XP(o, s + 1) == XP(o, s + 1)), s == SEG(o, v)))]

    def right(self, i, z, d):
        o = HOF(ID(i))
        full = z3.Or(CAP(o) == 0, V(i) >= CAP(o))
        return z3.And(z3.Implies(full, z == ZMIN(o) + DMAX(o)), z3.Implies(z3.And(z3.Not(full), V(i) * 1000 <= CAP(o) * 999), z == curve(o, V(i))),
                      z3.Or(z == ZMIN(o) + DMAX(o), z == curve(o, V(i))), d == z - ZMIN(o))

    def levels(self, ex, old, st, done):
        z, d = prop(st, self.list, i, 'approx_z'), prop(st, self.list, i, 'approx_dmax')
        dom = z3.And(i >= 0, i < self.n)
        if z is None or d is None:
            return [('no level yet', forall([i], z3.Implies(dom, z3.Not(done(i))), ID(i))), ('nothing changes', forall([i], z3.Implies(dom, unchanged(ex, old, st, self.list, i)), ID(i)))]
        if not is_num(z[1]) or not is_num(d[1]):
            return [('levels are numbers', z3.BoolVal(False))]
        zv, dv = rterm(z[1]), rterm(d[1])
        pats = [ID(i)] + [t for t in (zv, dv, z[0], d[0]) if uf(t)]
        return [('level of every pour point', forall([i], z3.Implies(z3.And(dom, done(i)), z3.And(z3.Not(z[0]), z3.Not(d[0]), self.right(i, zv, dv))), *pats)),
                ('no other node gets one', forall([i], z3.Implies(z3.And(dom, z3.Not(done(i))), z3.And(z[0], d[0])), *pats)),
                ('nothing else changes', forall([i], z3.Implies(dom, unchanged(ex, old, st, self.list, i, ('approx_z', 'approx_dmax'))), *pats))]

    def filter(self, st):
        return next((t for q, t in st.ghost.items() if isinstance(q, tuple) and q[0] == 'filtered' and z3.simplify(t[3] == self.n).eq(z3.BoolVal(True))), None)

    def loops(self, ex, entry, a, g):
        def inv(cc):
            f = self.filter(cc.st)
            return self.levels(ex, entry, cc.st, (lambda i: z3.And(ISPP(i), i < cc.k)) if f is None else (lambda i: z3.And(ISPP(i), f[2](i) < cc.k)))
        return {(0,): LoopSpec(inv)}

    def post(self, ex, old, st, a, g, res):
        l = written(st, self.w)
        if l is None or len(l) != 1:
            return [('features are written once', z3.BoolVal(False))]
        s = ex.to_seq(st.heap[l[0].id])
        v, w = s.at(j), s.at(k)
        f = self.filter(st)
        if f is None or not (isinstance(v, PRef) and v.id == self.list.id and len(v.path) == 1):
            return [('what is written are nodes read', s.n == 0)]
        e, e2 = v.path[0], w.path[0]
        dom = lambda j: z3.And(j >= 0, j < s.n)
        return [('what is written are pour points', forall([j], z3.Implies(dom(j), z3.And(e >= 0, e < self.n, ISPP(e))), e)),
                ('no node is written twice', forall([j, k], z3.Implies(z3.And(dom(j), dom(k), j < k), e < e2), [e, e2])),
                ('every pour point is written', forall([i], z3.Implies(z3.And(i >= 0, i < self.n, ISPP(i)), z3.And(dom(f[2](i)), z3.substitute(e, (j, f[2](i))) == i)), ISPP(i)))] + self.levels(ex, old, st, ISPP)


class Curve(Contract):
    """Lemma over the curve: the level lies between the lowest and the highest elevation, is the lowest one for an empty
    bluespot and does not decrease with the volume, also where the bluespot counts as full."""
    fp = 'real'

    def prove(self, ex):
        st = State()
        x, x0, x1, y0, y1, x2, v, w = z3.Reals('x x0 x1 y0 y1 x2 v w')
        line = lambda x: y0 + (x - x0) * (y1 - y0) / (x1 - x0)
        t = State()
        dom = z3.And(x0 <= x, x <= x1, x0 < x1, y0 <= y1)
        m = (x - x0) / (x1 - x0)
        frac = z3.Real('frac')
        # with frac = (x - x0) / (x1 - x0): 0 <= frac <= 1
        ex.need(t, 'fraction', z3.ForAll([x, x0, x1], z3.Implies(z3.And(x0 <= x, x <= x1, x0 < x1), z3.And(m >= 0, m <= 1))))
        ex.need(t, 'between by fraction', z3.ForAll([frac, y0, y1], z3.Implies(z3.And(frac >= 0, frac <= 1, y0 <= y1), z3.And(y0 <= y0 + frac * (y1 - y0), y0 + frac * (y1 - y0) <= y1))))
        ex.need(t, 'fractions grow', z3.ForAll([x, x2, x0, x1], z3.Implies(z3.And(x0 < x1, x <= x2), (x - x0) / (x1 - x0) <= (x2 - x0) / (x1 - x0))))
        f2 = z3.Real('frac2')
        ex.need(t, 'growing by fraction', z3.ForAll([frac, f2, y0, y1], z3.Implies(z3.And(frac <= f2, y0 <= y1), y0 + frac * (y1 - y0) <= y0 + f2 * (y1 - y0))))
        # hence, for the value on the line
        L = lambda x: LINT(x, x0, x1, y0, y1)
        st.assume(z3.ForAll([x, x0, x1, y0, y1], z3.Implies(dom, z3.And(L(x) >= y0, L(x) <= y1, z3.Implies(x == x0, L(x) == y0))), patterns=[L(x)]))
        st.assume(z3.ForAll([x, x2, x0, x1, y0, y1], z3.Implies(z3.And(x0 < x1, y0 <= y1, x <= x2), L(x) <= L(x2)), patterns=[z3.MultiPattern(L(x), L(x2))]))
        for q in axioms() + [consistency()]:
            st.assume(q)
        for lm in grows():
            lemma(ex, st, lm)
        lemma(ex, st, ('bins rise', forall([h, k], z3.Implies(z3.And(CONS(h), k >= 0, k < top(h)), YP(h, k) <= YP(h, k + 1)), [CONS(h), YP(h, k)])))
        lemma(ex, st, Induct('elevations of the curve do not decrease', [h, j, k], z3.And(CONS(h), j >= 0, j <= k, k <= top(h)), k, YP(h, j) <= YP(h, k), [[YP(h, j), YP(h, k)]],
                             using=[z3.Implies(z3.And(CONS(h), k >= 1, k <= top(h)), YP(h, k - 1) <= YP(h, k))]))
        o = z3.Int('o')
        st.assume(CONS(o))
        st.assume(v >= 0)
        st.assume(v <= w)
        a, b = SEG(o, v), SEG(o, w)
        for t in (a, b):
            st.assume(z3.And(*[f(o, q) == f(o, q) for f in (XP, YP) for q in (t, t + 1, z3.IntVal(0), top(o))]))
        ex.need(st, 'level between the lowest and the highest elevation', z3.And(curve(o, v) >= ZMIN(o), curve(o, v) <= ZMAX(o)))
        ex.need(st, 'empty bluespots have the lowest level', z3.Implies(z3.And(v == 0, CAP(o) > 0), curve(o, v) == ZMIN(o)))
        ex.need(st, 'the level does not decrease with the volume', curve(o, v) <= curve(o, w))
        ex.need(st, 'no level is above that of a full bluespot', curve(o, v) <= ZMIN(o) + DMAX(o))


CONTRACTS = [Levels(), Curve()]
