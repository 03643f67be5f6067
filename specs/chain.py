"""Contracts of the tools that chain the algorithms (C04, C20)."""
from .stand import *
from vf.core import State
from . import fill
from .flow import steepest, outward, meaning, Accumulate


class Dem(Contract):
    """The DEM stage: what is written belongs to the terrain read."""
    quals = ('malstroem.dem.DemTool.process',)
    params = ('self',)
    variant = 'accum'
    solver_timeout = 60

    def setup(self, ex, st, fn):
        dem = arr(ex, st, 'dem', 'f4', dims(st))
        self.dem = dem
        H, W = shape_of(st, dem)
        t = transform(st)
        st.assume(z3.And(t[1].t == -t[5].t, t[1].t > 0))
        self.w = {k: raster_writer(ex, st) for k in ('filled', 'flowdir', 'depths', 'accum')}
        if self.variant != 'accum':
            self.w['accum'] = None
        st.assume(z3.And(t[1].t * 2 ** 900 >= 1, R8(z3.RealVal(Fraction(1, 2 ** 1000))) == z3.RealVal(Fraction(1, 2 ** 1000))))
        return {'self': tool(ex, st, fn, input_dem=raster_reader(ex, st, dem, t), output_filled=self.w['filled'], output_flowdir=self.w['flowdir'],
                             output_depths=self.w['depths'], output_accum=self.w['accum'])}

    def accepts(self, ex, st, a):
        return False

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, self.dem)
        d = fn_of(st, self.dem)
        return [('elevations are finite single precision values', forall([r, c], z3.And(d(r, c) < 2 ** 128, d(r, c) > -2 ** 128), d(r, c)))]

    def surface(self, ex, H, W):
        """the ghost of the flat-free surface made in the code, with the drops and the magnitude they were chosen for"""
        dem = fn_of(ex.top.entry, self.dem)
        gs = [g for k, g in ex.ghosts.items() if k[0] == 'spill' and len(k) > 2 and g.dem is dem]
        safe = [ct for ct in ex.contracts.values() if isinstance(ct, fill.SafeDrops)][0]
        return gs[-1] if gs else None, getattr(safe, 'M', None), getattr(safe, 'd', None)

    def lemmas(self, ex, old, st, a, g, res):
        H, W = shape_of(old, self.dem)
        dem = fn_of(old, self.dem)
        sp, M, drops = self.surface(ex, H, W)
        l = written(st, self.w['flowdir'])
        if sp is None or drops is None or l is None or len(l) != 1:
            return []
        s, d = drops
        D = fn_of(st, l[0])
        S, rk = sp.S, sp.rk
        x = z3.Real('x')
        k = z3.Int('k')
        ab = z3.If(x >= 0, x, -x)
        # double precision rounds to a relative error of 2**-53 (down to the subnormal numbers)
        st.assume(forall([x], z3.Implies(z3.And(x <= 2 ** 200, x >= -2 ** 200), z3.And((R8(x) - x) * 2 ** 1075 <= ab * 2 ** 1022 + 1, (x - R8(x)) * 2 ** 1075 <= ab * 2 ** 1022 + 1)), R8(x)))
        st.assume(fill.SIZE(M))
        self.sp = None
        st.assume(z3.And(fill.CELLS >= 0, fill.CELLS <= 2 ** 40))
        on = lambda v: z3.Or(z3.And(v <= 2 * M, v >= -2 * M), z3.And(v <= fill.TINY, v >= -fill.TINY))
        nr, nc = sp.nr(r, c), sp.nc(r, c)
        UP = freshf('upto', I, z3.RealSort())            # ghost: the greatest elevation after k drops
        j = z3.Int('j')
        st.assume(forall([k], UP(k) == M + 2 * d * k, UP(k)))
        ndrop = z3.If(z3.And(r != nr, c != nc), d, s)
        at = z3.And(interior(r, c, H, W), sp.attained())
        out = [('the drop rounds up by less than itself', forall([x], z3.Implies(on(x), R8(x + d) <= x + 2 * d), R8(x + d))),
               ('both drops are felt', forall([x], z3.Implies(on(x), z3.And(R8(x + d) > x, R8(x + s) > x)), R8(x + d), R8(x + s))),
               ('the total of the drops is within the magnitude', z3.And(M >= 0, d > 0, UP(0) == M, forall([k], z3.Implies(z3.And(k >= 0, k <= 2 ** 40), z3.And(UP(k) >= M, z3.Or(UP(k) <= 2 * M, UP(k) <= fill.TINY))), UP(k)))),
               ('one more drop', forall([j, k], z3.Implies(z3.And(j >= 0, j < k, k <= 2 ** 40), UP(j) + 2 * d <= UP(k)), [UP(j), UP(k)])),
               Induct('surface within the total of the drops', [r, c], inside(r, c, H, W), rk(r, c), S(r, c) <= UP(rk(r, c)), [S(r, c)], using=[sp.attained(), rk(nr, nc) <= 2 ** 40, R8(S(nr, nc) + s) <= R8(S(nr, nc) + d)]),
               ('surface not beyond twice the magnitude', forall([r, c], z3.Implies(inside(r, c, H, W), on(S(r, c))), S(r, c)))]
        out += [('the next cell on an attaining path is lower', forall([r, c], z3.Implies(at, z3.And(near(r, c, nr, nc), inside(nr, nc, H, W), on(S(nr, nc)), R8(S(nr, nc) + ndrop) > S(nr, nc), S(nr, nc) < S(r, c))), S(r, c)))]
        # the surface the directions were made from, and what steepest descent means (proved: flow.Steepest)
        T = self.T = [ct for ct in ex.contracts.values() if type(ct) is fill.FillNF][0].lastfn
        st.assume(forall([r, c], z3.Implies(z3.And(interior(r, c, H, W), steepest(T, D(r, c), r, c)), z3.And(meaning(T, D(r, c), r, c))), D(r, c)))
        out += [('interior cells have a lower neighbour', forall([r, c], z3.Implies(at, z3.Or([T(r + dr, c + dc) < T(r, c) for dr, dc in STEP])), D(r, c)))]
        self.at = forall([r, c], z3.Implies(interior(r, c, H, W), sp.attained()), D(r, c))      # defining fact of the ghost
        self.sp = sp
        return out

    def modifies(self, ex, st, a, g):
        return [st.heap[w.id].attrs['written'] for w in self.w.values() if w is not None]

    def post(self, ex, old, st, a, g, res):
        out = []
        got = {}
        for k, w in self.w.items():
            if w is None:
                continue
            l = written(st, w)
            if l is None or len(l) != 1:
                return [('%s is written once' % k, z3.BoolVal(False))]
            got[k] = l[0]
        H, W = shape_of(old, self.dem)
        dem = fn_of(old, self.dem)
        # filled: the spill elevation
        F = [c for c in fill.CONTRACTS if type(c) is fill.Fill][0]
        b = A({'dtm': self.dem})
        out += [('filled: ' + nm, t) for nm, t in F.post(ex, old, st, b, F.ghost(ex, st, b), got['filled'])]
        # depths
        f, d = fn_of(st, got['filled']), fn_of(st, got['depths'])
        h, w = shape_of(st, got['depths'])
        out += [('depths: same shape', z3.And(h == H, w == W)),
                ('depths: filled minus terrain, in the precision of the file', forall([r, c], z3.Implies(inside(r, c, H, W), d(r, c) == R4(f(r, c) - dem(r, c))), d(r, c))),
                ('depths: never negative', forall([r, c], z3.Implies(inside(r, c, H, W), d(r, c) >= 0), d(r, c)))]
        D = fn_of(st, got['flowdir'])
        h, w = shape_of(st, got['flowdir'])
        out += [('flow directions: same shape', z3.And(h == H, w == W))]
        if getattr(self, 'sp', None) is None:
            return out + [('flow directions of a flat-free surface', z3.BoolVal(False))]
        T = self.T
        st.assume(self.at)
        out += [('flow directions are the steepest on the lowest flat-free surface', forall([r, c], z3.Implies(interior(r, c, H, W), steepest(T, D(r, c), r, c)), D(r, c))),
                ('no interior cell is without direction', forall([r, c], z3.Implies(interior(r, c, H, W), z3.And(D(r, c) >= 0, D(r, c) < NODIR)), D(r, c))),
                ('edge cells flow off the raster', forall([r, c], z3.Implies(edge(r, c, H, W), outward(D(r, c), r, c, H, W)), D(r, c)))]
        for d, (dr, dc) in enumerate(STEP):
            out.append(('interior cells flow to a lower cell of the surface (direction %d)' % d, forall([r, c], z3.Implies(z3.And(interior(r, c, H, W), D(r, c) == d), T(r + dr, c + dc) < T(r, c)), D(r, c))))
        if 'accum' in got:
            b = A({'flowdir': got['flowdir']})
            C = [ct for ct in ex.contracts.values() if type(ct) is Accumulate][0]
            out += [('accumulated flow: ' + nm, t) for nm, t in C.post(ex, old, st, b, self.counts(st, D), got['accum'])]
        return out

    def counts(self, st, D):
        """the ghost number of cells draining through each cell of this direction raster"""
        gs = [g for k, g in st.ghost.items() if k[0] == 'count' and g.D is D]
        if not gs:
            raise Unsupported('accumulated flow of another direction raster')
        return gs[0]


CONTRACTS = [Dem()]
