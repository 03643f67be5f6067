"""Contracts of malstroem.algorithms.fill and its native twin (C01, C02)."""
import z3
from vf.vals import *
from vf.core import LoopSpec, State, fresh, freshf
from vf.contract import *

r, c, r2, c2 = z3.Ints('r c r2 c2')
FP = 'malstroem.algorithms.fill.'
FC = 'malstroem.algorithms.speedups._fill.'


def near(r, c, r2, c2):
    return z3.And(r2 >= r - 1, r2 <= r + 1, c2 >= c - 1, c2 <= c + 1, z3.Or(r != r2, c != c2))


def inside(r, c, H, W):
    return z3.And(r >= 0, r < H, c >= 0, c < W)


def interior(r, c, H, W):
    return z3.And(r >= 1, r < H - 1, c >= 1, c < W - 1)


def edge(r, c, H, W):
    return z3.And(inside(r, c, H, W), z3.Or(r == 0, r == H - 1, c == 0, c == W - 1))


def mx(a, b):
    return z3.If(a >= b, a, b)


CELLS = z3.Int('cells')       # number of cells: a path of least length visits none twice


class Spill(object):
    """ghost: S = spill elevation (lowest over paths to the edge of the highest terrain met), nx = next cell of a
    path of least length attaining it, rank = its length.  The defining facts:
    S = dem on the edge; dem <= S; S(x) <= max(dem(x), S(n)) for every neighbour n;
    S(x) = max(dem(x), S(nx(x))) with rank(nx(x)) < rank(x) for interior x."""

    def __init__(self, dem, H, W, drop=None):
        n = 'D%d' % abs(hash(dem)) if False else ''
        self.dem, self.H, self.W = dem, H, W
        self.S = freshf('spill', I, I, z3.RealSort())
        self.nr, self.nc = freshf('nextrow', I, I, I), freshf('nextcol', I, I, I)
        self.rk = freshf('rank', I, I, I)
        self.drop = drop or (lambda r, c, r2, c2, v: v)

    def attained(self):
        """at (r, c)"""
        S, H, W, dem = self.S, self.H, self.W, self.dem
        nr, nc = self.nr(r, c), self.nc(r, c)
        return z3.Implies(interior(r, c, H, W), z3.And(near(r, c, nr, nc), self.rk(nr, nc) < self.rk(r, c),
                S(r, c) == mx(dem(r, c), self.drop(r, c, nr, nc, S(nr, nc)))))

    def axioms(self):
        S, H, W, dem = self.S, self.H, self.W, self.dem
        return [
            ('spill elevation: edge', forall([r, c], z3.Implies(edge(r, c, H, W), S(r, c) == dem(r, c)), S(r, c))),
            ('spill elevation: not below terrain', forall([r, c], z3.Implies(inside(r, c, H, W), S(r, c) >= dem(r, c)), S(r, c))),
            ('spill elevation: finite', forall([r, c], z3.Implies(inside(r, c, H, W), S(r, c) <= INF), S(r, c))),
            ('spill elevation: least', forall([r, c, r2, c2], z3.Implies(z3.And(interior(r, c, H, W), near(r, c, r2, c2)),
                S(r, c) <= mx(dem(r, c), self.drop(r, c, r2, c2, S(r2, c2)))), [S(r, c), S(r2, c2)])),
            ('rank is natural', forall([r, c], z3.And(self.rk(r, c) >= 0, self.rk(r, c) <= CELLS), self.rk(r, c))),
        ]


def spill_of(ex, st, a, drop=None, extra=()):
    """the ghost of a DEM (one per array content)"""
    key = ('spill', id(fn_of(st, a.dtm))) + tuple(extra)
    tab = ex.__dict__.setdefault('ghosts', {})
    if key not in tab:
        H, W = shape_of(st, a.dtm)
        tab[key] = Spill(fn_of(st, a.dtm), H, W, drop)
        tab[key].keep = fn_of(st, a.dtm)
    g = tab[key]
    if not st.ghost.get(key):
        st.ghost[key] = True
        for nm, t in g.axioms():
            st.assume(t)
    return g


def covers(F, dem, H, W):
    """never below terrain, unchanged on the edge, no value above infinity"""
    return z3.And(forall([r, c], z3.Implies(inside(r, c, H, W), F(r, c) >= dem(r, c)), F(r, c)),
                  forall([r, c], z3.Implies(edge(r, c, H, W), F(r, c) == dem(r, c)), F(r, c)),
                  )


def stable_at(F, dem, drop, r, c, r2, c2):
    return F(r, c) <= mx(dem(r, c), drop(r, c, r2, c2, F(r2, c2)))


class Sweep(Contract):
    """One sweep over a rectangle of cells: the surface never rises, stays above terrain and spill elevation, and
    when the sweep reports no change it changed nothing and every cell swept is as low as its neighbours allow."""
    quals = (FP + '_fill_terrain', FC + '_fill_terrain')
    params = ('dtm', 'filled', 'fromrow', 'torow', 'fromcol', 'tocol')

    def setup(self, ex, st, fn):
        H, W = dims(st)
        d = arr(ex, st, 'dem', 'f4', (H, W))
        F = arr(ex, st, 'filled', 'f4', (H, W))
        v = {p: integer(st, p, 0) for p in self.params[2:]}
        v.update(dtm=d, filled=F)
        return v

    def drop(self, ex, st, a):
        return lambda r, c, r2, c2, v: v

    def accepts(self, ex, st, a):
        return is_arr(st, a.dtm, 2) and is_arr(st, a.filled, 2)

    def ghost(self, ex, st, a):
        return spill_of(ex, st, a)

    def common(self, ex, st, a, g):
        H, W = shape_of(st, a.filled)
        F, dem = fn_of(st, a.filled), fn_of(st, a.dtm)
        return [
            ('not below terrain and unchanged on edge cells', covers(F, dem, H, W)),
            ('not below spill elevation', forall([r, c], z3.Implies(inside(r, c, H, W), F(r, c) >= g.S(r, c)), F(r, c))),
        ]

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.filled)
        H2, W2 = shape_of(st, a.dtm)
        fr, tr, fc, tc = [iterm(x) for x in (a.fromrow, a.torow, a.fromcol, a.tocol)]
        return [
            ('distinct arrays', z3.BoolVal(a.dtm.id != a.filled.id)),
            ('same shape', z3.And(H == H2, W == W2, H >= 2, W >= 2)),
            ('rows in range', z3.And(fr >= 0, tr >= 0, fr < H, tr < H)),
            ('columns in range', z3.And(fc >= 0, tc >= 0, fc < W, tc < W)),
        ] + self.common(ex, st, a, g)

    def modifies(self, ex, st, a, g):
        return [a.filled]

    def result(self, ex, st, a, g):
        return N(fresh('changed', z3.BoolSort()), 'bool')

    def swept(self, a, r, c):
        fr, tr, fc, tc = [iterm(x) for x in (a.fromrow, a.torow, a.fromcol, a.tocol)]
        between = lambda x, p, q: z3.Or(z3.And(p <= x, x <= q), z3.And(q <= x, x <= p))
        return z3.And(between(r, fr, tr), between(c, fc, tc))

    def post(self, ex, old, st, a, g, res):
        H, W = shape_of(st, a.filled)
        F, F0, dem = fn_of(st, a.filled), fn_of(old, a.filled), fn_of(st, a.dtm)
        drop = self.drop(ex, st, a)
        return self.common(ex, st, a, g) + [
            ('never raised', forall([r, c], F(r, c) <= F0(r, c), F(r, c))),
            ('no change reported means no change', z3.Implies(falsy(res), forall([r, c], F(r, c) == F0(r, c), F(r, c)))),
            ('no change reported means swept cells are lowest', z3.Implies(falsy(res), forall([r, c, r2, c2],
                z3.Implies(z3.And(interior(r, c, H, W), self.swept(a, r, c), near(r, c, r2, c2)), stable_at(F0, dem, drop, r, c, r2, c2)),
                [F0(r, c), F0(r2, c2)]))),
        ]

    def loops(self, ex, entry, a, g):
        H, W = shape_of(entry, a.filled)
        dem, F0 = fn_of(entry, a.dtm), fn_of(entry, a.filled)
        fr, tr, fc, tc = [iterm(x) for x in (a.fromrow, a.torow, a.fromcol, a.tocol)]
        drop = self.drop(ex, entry, a)
        ri = lambda r: z3.If(tr > fr, r - fr, fr - r)
        ci = lambda c: z3.If(tc > fc, c - fc, fc - c)

        def inv(cc):
            F = fn_of(cc.st, a.filled)
            return self.common(ex, cc.st, a, g) + [('never raised', forall([r, c], F(r, c) <= F0(r, c), F(r, c)))]

        def quiet(cc, done):
            out = []
            F = fn_of(cc.st, a.filled)
            for f, env in cc.st.envs.items():
                if str(f).startswith('mod:'):
                    continue
                for nm, v in env.items():
                    if isinstance(v, N) and v.k in ('bool', 'int', 'i4') or isinstance(v, bool) or type(v) is int:
                        if not cc.entered(f, nm):
                            continue
                        out.append(('%s false means nothing changed so far' % nm, z3.Implies(falsy(v), z3.And(
                            forall([r, c], F(r, c) == F0(r, c), F(r, c)),
                            forall([r, c, r2, c2], z3.Implies(z3.And(interior(r, c, H, W), self.swept(a, r, c), done(r, c), near(r, c, r2, c2)),
                                   stable_at(F0, dem, drop, r, c, r2, c2)), [F0(r, c), F0(r2, c2)])))))
            return out

        nrows = z3.If(tr > fr, tr - fr, fr - tr) + 1
        ncols = z3.If(tc > fc, tc - fc, fc - tc) + 1

        def outer(cc):
            return quiet(cc, lambda r, c: ri(r) < cc.k) + [('k <= rows', cc.k <= nrows)]

        def inner(cc):
            k0 = cc.up().k
            return quiet(cc, lambda r, c: z3.Or(ri(r) < k0, z3.And(ri(r) == k0, ci(c) < cc.k))) + [('k <= columns', cc.k <= ncols)]
        return {1: LoopSpec(inv, outer), 2: LoopSpec(inv, inner)}


def step(a):
    """least elevation allowed next to a cell of elevation v: v plus the minimum drop, as a float64"""
    s, d = rterm(a.short), rterm(a.diag)

    def f(r, c, r2, c2, v):
        return R8(v + z3.If(z3.And(r != r2, c != c2), d, s))
    return f


class NoFlats(object):
    """what distinguishes the flat-free variants"""
    kinds = ('f4', 'f8')

    def drop(self, ex, st, a):
        return step(a)

    def ghost(self, ex, st, a):
        return spill_of(ex, st, a, step(a), (rterm(a.short).get_id(), rterm(a.diag).get_id()))

    def drops(self, a):
        return [('minimum drops are not negative', z3.And(rterm(a.short) >= 0, rterm(a.diag) >= 0))]


class SweepNF(NoFlats, Sweep):
    quals = (FP + '_fill_terrain_no_flats', FC + '_fill_terrain_no_flats')
    params = Sweep.params + ('short', 'diag')

    def setup(self, ex, st, fn):
        H, W = dims(st)
        v = {p: integer(st, p, 0) for p in self.params[2:6]}
        v.update(dtm=arr(ex, st, 'dem', 'f4', (H, W)), filled=arr(ex, st, 'filled', 'f8', (H, W)), short=real(st, 'short'), diag=real(st, 'diag'))
        return v

    def pre(self, ex, st, a, g):
        return self.drops(a) + Sweep.pre(self, ex, st, a, g)


class Fill(Contract):
    """The filled terrain is the spill elevation."""
    quals = (FP + 'fill_terrain',)
    params = ('dtm',)
    sweep = None

    def setup(self, ex, st, fn):
        H, W = dims(st)
        return {'dtm': arr(ex, st, 'dem', 'f4', (H, W))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.dtm, 2) and st.heap[a.dtm.id].dt.k == 'f4'

    def drop(self, ex, st, a):
        return lambda r, c, r2, c2, v: v

    def ghost(self, ex, st, a):
        return spill_of(ex, st, a)

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.dtm)
        return [('at least 2x2 cells', z3.And(H >= 2, W >= 2))]

    def result(self, ex, st, a, g):
        return arr(ex, st, str(fresh('filled', I)), 'f4', st.heap[a.dtm.id].shape)

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 2):
            return [('result is an array', z3.BoolVal(False))]
        H, W = shape_of(st, res)
        H0, W0 = shape_of(old, a.dtm)
        F = fn_of(st, res)
        return [('same shape', z3.And(H == H0, W == W0)),
                ('equals the spill elevation', forall([r, c], z3.Implies(inside(r, c, H0, W0), F(r, c) == g.S(r, c)), F(r, c))),
                ('not below the terrain', forall([r, c], z3.Implies(inside(r, c, H0, W0), F(r, c) >= fn_of(old, a.dtm)(r, c)), F(r, c)))]

    def lemmas(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 2):
            return []
        H, W = shape_of(old, a.dtm)
        F = fn_of(st, res)
        return [('final surface is stable', self.stable(ex, old, a, F, H, W)),
                Induct('not above the spill elevation', [r, c], inside(r, c, H, W), g.rk(r, c), F(r, c) <= g.S(r, c), [F(r, c)], using=[g.attained()])]

    def stable(self, ex, st, a, F, H, W):
        dem = fn_of(st, a.dtm)
        return forall([r, c, r2, c2], z3.Implies(z3.And(interior(r, c, H, W), near(r, c, r2, c2)),
                      stable_at(F, dem, self.drop(ex, st, a), r, c, r2, c2)), [F(r, c), F(r2, c2)])

    def loops(self, ex, entry, a, g):
        H, W = shape_of(entry, a.dtm)
        dem = fn_of(entry, a.dtm)

        def surfaces(cc):
            """float arrays modified by the loop"""
            return [i for i in sorted(cc.mod_heap) if isinstance(cc.st.heap.get(i), ArrC) and len(cc.st.heap[i].shape) == 2]

        def inv(cc):
            out = []
            for i in surfaces(cc):
                F = cc.st.heap[i].fn
                out += [('not below terrain and unchanged on edge cells', covers(F, dem, H, W)),
                        ('not below spill elevation', forall([r, c], z3.Implies(inside(r, c, H, W), F(r, c) >= g.S(r, c)), F(r, c)))]
            return out

        def cand(cc):
            out = []
            for i in surfaces(cc):
                F = cc.st.heap[i].fn
                for f, env in cc.st.envs.items():
                    for nm, v in env.items():
                        if cc.entered(f, nm) and is_num(v) and kind(v) in ('bool', 'int'):
                            out.append(('%s false means stable' % nm, z3.Implies(falsy(v), self.stable(ex, entry, a, F, H, W))))
                            if kind(v) == 'bool':
                              out.append(('%s true means stable' % nm, z3.Implies(NOT(falsy(v)), self.stable(ex, entry, a, F, H, W))))
            return out
        return {1: LoopSpec(inv, cand)}


class FillNF(NoFlats, Fill):
    """The flat-free surface is the lowest one at which every interior cell is at least its cheapest neighbour plus
    the minimum drop."""
    quals = (FP + 'fill_terrain_no_flats',)
    params = ('dtm', 'short', 'diag')

    def setup(self, ex, st, fn):
        H, W = dims(st)
        return {'dtm': arr(ex, st, 'dem', 'f4', (H, W)), 'short': real(st, 'short'), 'diag': real(st, 'diag')}

    def pre(self, ex, st, a, g):
        return self.drops(a) + Fill.pre(self, ex, st, a, g)

    def result(self, ex, st, a, g):
        self.last = arr(ex, st, str(fresh('flatfree', I)), 'f8', st.heap[a.dtm.id].shape)
        self.lastfn = fn_of(st, self.last)
        return self.last


SIZE = z3.Function('mark_size', z3.RealSort(), z3.BoolSort())     # where the bounds on the size of the drop are wanted
NEXT8 = z3.Function('nextafter_f8', z3.RealSort(), z3.RealSort())
SQRT2 = z3.RealVal(Fraction(2 ** .5))
fm, fv = z3.Reals('m v')


class FpFacts(Contract):
    """Facts about double precision arithmetic that the other contracts use, proved in the solvers' own theory of
    IEEE 754 floating point (bit precise, for all doubles)."""
    solver_timeout = 120

    def prove(self, ex):
        F, rm = z3.Float64(), z3.RNE()
        x, y, m, v, s = [z3.FP(n, F) for n in 'xymvs']
        zero, rt2 = z3.FPVal(0, F), z3.FPVal(2 ** .5, F)
        fin = lambda t: z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t)))
        st = State()
        ex.topname = 'floating point facts'
        ex.obl(st, 'the difference of distinct doubles has the right sign', z3.Implies(z3.And(fin(x), fin(y), z3.fpGT(x, y)), z3.fpGT(z3.fpSub(rm, x, y), zero)), 'lemma')
        ex.obl(st, 'a positive double divided by sqrt(2) is positive', z3.Implies(z3.fpGT(x, zero), z3.fpGT(z3.fpDiv(rm, x, rt2), zero)), 'lemma')
        mb = z3.BitVec('mb', 64)
        m, nx = z3.fpBVToFP(mb, F), z3.fpBVToFP(mb + 1, F)      # next double above a non-negative one
        short = z3.fpMul(rm, z3.fpSub(rm, nx, m), z3.FPVal(1024.0, F))
        dom = z3.And(z3.Extract(63, 63, mb) == 0, fin(m), z3.fpLEQ(m, z3.FPVal(2.0 ** 128, F)), z3.Or(z3.fpLEQ(z3.fpAbs(v), z3.fpMul(rm, z3.FPVal(2.0, F), m)), z3.fpLEQ(z3.fpAbs(v), z3.FPVal(2.0 ** -1020, F))))
        diag = z3.fpMul(rm, short, rt2)
        ex.obl(st, '1024 times the spacing of doubles is felt up to twice the magnitude', z3.Implies(dom, z3.fpGT(z3.fpAdd(rm, v, short), v)), 'lemma')
        ex.obl(st, 'and is positive', z3.Implies(dom, z3.fpGT(short, zero)), 'lemma')
        up = z3.RTP()
        ex.obl(st, 'sqrt(2) times it is not small against the magnitude', z3.Implies(dom, z3.And(z3.fpLEQ(z3.fpMul(up, m, z3.FPVal(2.0 ** -50, F)), diag), z3.fpGEQ(diag, z3.FPVal(2.0 ** -1065, F)))), 'lemma')
        ex.obl(st, '2**41 times sqrt(2) times it is within the magnitude', z3.Implies(dom, z3.Or(z3.fpLEQ(z3.fpMul(up, diag, z3.FPVal(2.0 ** 41, F)), m),
                       z3.fpLEQ(z3.fpMul(up, diag, z3.FPVal(2.0 ** 41, F)), z3.FPVal(2.0 ** -1021, F)))), 'lemma')
        ex.obl(st, 'multiplying by sqrt(2) does not make it smaller', z3.Implies(z3.And(fin(s), z3.fpGEQ(s, zero)), z3.fpGEQ(z3.fpMul(rm, s, rt2), s)), 'lemma')

    @staticmethod
    def felt(m, v, x):
        """x is felt when added to v, for v up to twice m in size"""
        return z3.Implies(z3.Or(z3.And(v <= 2 * m, v >= -2 * m), z3.And(v <= TINY, v >= -TINY)), R8(v + x) > v)

    @staticmethod
    def drops():
        """the same for the rounding function of the contracts"""
        short = R8(R8(NEXT8(fm) - fm) * 1024)
        diag = R8(short * SQRT2)
        dom = z3.And(fm >= 0, fm <= 2 ** 128)
        return [('double precision: 1024 spacings are felt', z3.ForAll([fm, fv], z3.Implies(dom, FpFacts.felt(fm, fv, short)), patterns=[z3.MultiPattern(NEXT8(fm), R8(fv + short))])),
                ('double precision: spacing is positive', z3.ForAll([fm], z3.Implies(dom, short > 0), patterns=[NEXT8(fm)])),
                ('double precision: size of the drop', z3.ForAll([fm], z3.Implies(dom, z3.And(diag * 2 ** 50 >= fm, diag * 2 ** 1065 >= 1,
                    z3.Or(diag * 2 ** 41 <= fm, diag * 2 ** 41 * 2 ** 1021 <= 1))), patterns=[SIZE(fm)])),
                ('double precision: times sqrt(2) is not smaller', z3.ForAll([fm], z3.Implies(fm >= 0, R8(fm * SQRT2) >= fm), patterns=[R8(fm * SQRT2)]))]


TINY = z3.RealVal(Fraction(1, 2 ** 1020))


class SafeDrops(Contract):
    """The automatic minimum drops are felt at every elevation up to twice the greatest of the raster."""
    quals = (FP + 'minimum_safe_short_and_diag',)
    params = ('dem',)

    def setup(self, ex, st, fn):
        return {'dem': arr(ex, st, 'dem', 'f4', dims(st, lo=1))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.dem, 2) and st.heap[a.dem.id].dt.k == 'f4'

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.dem)
        return [('not empty', z3.And(H >= 1, W >= 1)),
                ('elevations are finite single precision values', forall([r, c], z3.And(fn_of(st, a.dem)(r, c) < 2 ** 128, fn_of(st, a.dem)(r, c) > -2 ** 128), fn_of(st, a.dem)(r, c)))]

    def ghost(self, ex, st, a):
        for nm, t in FpFacts.drops():
            st.assume(t)

    def result(self, ex, st, a, g):
        self.M = fresh('greatest', z3.RealSort())
        self.d = fresh('short', z3.RealSort()), fresh('diag', z3.RealSort())
        return N(self.d[0], 'f8'), N(self.d[1], 'f8')

    def magnitude(self, old, a, s, M):
        """the edge drop s is 1024 spacings of doubles at a magnitude M not exceeded by any cell"""
        H, W = shape_of(old, a.dem)
        dem = fn_of(old, a.dem)
        return z3.And(M >= 0, M < 2 ** 128, s == R8(R8(NEXT8(M) - M) * 1024),
                      forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(dem(r, c) <= M, dem(r, c) >= -M)), dem(r, c)))

    def felt(self, old, a, x):
        H, W = shape_of(old, a.dem)
        dem = fn_of(old, a.dem)
        v = z3.Real('v')
        return v, dem, z3.Implies(z3.And(inside(r, c, H, W), v <= 2 * z3.If(dem(r, c) >= 0, dem(r, c), -dem(r, c)), v >= -2 * z3.If(dem(r, c) >= 0, dem(r, c), -dem(r, c))), R8(v + x) > v)

    def lemmas(self, ex, old, st, a, g, res):
        if not (isinstance(res, tuple) and len(res) == 2):
            return []
        s, d = rterm(res[0]), rterm(res[1])
        m, v = z3.Real('greatest'), z3.Real('v')
        ex.need(st, 'lemma: edge drop is 1024 spacings at some magnitude not exceeded', z3.Exists([m], self.magnitude(old, a, s, m)), 'lemma')
        M = self.M = fresh('greatest', z3.RealSort())
        st.assume(self.magnitude(old, a, s, M))        # a witness of what was just proved
        on = z3.And(v <= 2 * M, v >= -2 * M)
        return [('edge drop is felt up to twice the magnitude', forall([v], z3.Implies(on, R8(v + s) > v), R8(v + s), R8(v + d))),
                ('corner drop is not smaller', d >= s),
                ('corner drop is felt up to twice the magnitude', forall([v], z3.Implies(on, R8(v + d) > v), R8(v + d)))]

    def post(self, ex, old, st, a, g, res):
        if not (isinstance(res, tuple) and len(res) == 2):
            return [('result is a pair', z3.BoolVal(False))]
        s, d = rterm(res[0]), rterm(res[1])
        v, dem, _ = self.felt(old, a, s)
        felt = lambda x: self.felt(old, a, x)[2]
        m = z3.Real('greatest')
        if ex.top.ctr is self:
            mag = z3.Exists([m], self.magnitude(old, a, s, m))
        else:
            mag = self.magnitude(old, a, s, self.M)
        return [('edge drop is 1024 spacings at the greatest magnitude', mag), ('edge drop is positive', s > 0), ('corner drop is sqrt(2) times the edge drop', d == R8(s * SQRT2)),
                ('edge drop is felt', forall([r, c, v], felt(s), [dem(r, c), R8(v + s)])),
                ('corner drop is not smaller than the edge drop', d >= s),
                ('corner drop is felt', forall([r, c, v], felt(d), [dem(r, c), R8(v + d)]))]


CONTRACTS = [Sweep(), Fill(), SweepNF(), FillNF(), FpFacts(), SafeDrops()]
