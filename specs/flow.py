"""Contracts of malstroem.algorithms.flow and its native twin (C03, C04, C05, C06)."""
from .grid import *
from vf.core import State

FP = 'malstroem.algorithms.flow.'
FC = 'malstroem.algorithms.speedups._flow.'


# ------------------------------------------------------------------ C03
def slope(T, r, c, d):
    """downward slope from (r, c) in direction d, in double precision"""
    dr, dc = STEP[d]
    v = R8(T(r, c) - T(r + dr, c + dc))
    return R8(v / SQRT2) if dr and dc else v


def steepest(T, f, r, c):
    """f is the code of the steepest descent from (r, c), the first of equally steep ones; NODIR without descent"""
    S = [slope(T, r, c, d) for d in range(8)]
    out = [f >= 0, f <= 8, z3.Implies(f == NODIR, z3.And([s <= 0 for s in S]))]
    for d in range(8):
        out.append(z3.Implies(f == d, z3.And([S[d] > 0] + [S[e] < S[d] if e < d else S[e] <= S[d] for e in range(8) if e != d])))
    return z3.And(out)


def outward(f, r, c, H, W):
    up, down, left, right = r == 0, r == H - 1, c == 0, c == W - 1
    return f == z3.If(up, z3.If(left, 7, z3.If(right, 1, z3.IntVal(0))), z3.If(down, z3.If(left, 5, z3.If(right, 3, z3.IntVal(4))),
                      z3.If(left, 6, z3.IntVal(2))))


class D8(Contract):
    """Interior cells get the first direction of greatest positive slope, all others none."""
    quals = (FP + '_terrain_flow', FC + 'terrain_flow')
    params = ('terrain',)

    def setup(self, ex, st, fn):
        return {'terrain': arr(ex, st, 'terrain', 'f8', dims(st))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.terrain, 2) and st.heap[a.terrain.id].dt.k == 'f8'

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.terrain)
        return [('at least 2x2 cells', z3.And(H >= 2, W >= 2))]

    def result(self, ex, st, a, g):
        return arr(ex, st, str(fresh('flowdir', I)), 'u1', st.heap[a.terrain.id].shape)

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 2):
            return [('result is an array', z3.BoolVal(False))]
        H, W = shape_of(old, a.terrain)
        h, w = shape_of(st, res)
        F, T = fn_of(st, res), fn_of(old, a.terrain)
        return [('same shape', z3.And(h == H, w == W)),
                ('stored as 8 bit codes', z3.BoolVal(st.heap[res.id].dt.k == 'u1')),
                ('interior cells have the steepest descent', forall([r, c], z3.Implies(interior(r, c, H, W), steepest(T, F(r, c), r, c)), F(r, c)))] + \
            self.edges(F, H, W)

    def edges(self, F, H, W):
        return [('edge cells have no direction', forall([r, c], z3.Implies(edge(r, c, H, W), F(r, c) == NODIR), F(r, c)))]

    def loops(self, ex, entry, a, g):
        H, W = shape_of(entry, a.terrain)
        T = fn_of(entry, a.terrain)

        def inv(done):
            def f(cc):
                out = []
                for i, ar in arrays(cc):
                    F = ar.fn
                    out += [('edge cells have no direction', forall([r, c], z3.Implies(edge(r, c, H, W), F(r, c) == NODIR), F(r, c))),
                            ('cells scanned have the steepest descent', forall([r, c], z3.Implies(z3.And(interior(r, c, H, W), done(cc, r, c)), steepest(T, F(r, c), r, c)), F(r, c)))]
                return out
            return f
        return {1: LoopSpec(inv(lambda cc, r, c: r < 1 + cc.k), lambda cc: [('k <= rows', cc.k <= H - 2)]),
                2: LoopSpec(inv(lambda cc, r, c: z3.Or(r < 1 + cc.up().k, z3.And(r == 1 + cc.up().k, c < 1 + cc.k))), lambda cc: [('k <= columns', cc.k <= W - 2)])}


def fp_slopes(T, r, c):
    """double precision keeps the sign of a difference and of its quotient by sqrt(2) (proved: fill.FpFacts)"""
    out = []
    for dr, dc in STEP:
        x = T(r, c) - T(r + dr, c + dc)
        out.append(z3.Implies(x > 0, R8(x) > 0))
        if dr and dc:
            out.append(z3.Implies(R8(x) > 0, R8(R8(x) / SQRT2) > 0))
    return out


def meaning(T, f, r, c):
    """what steepest descent means (proved: Steepest)"""
    lower = [T(r + dr, c + dc) < T(r, c) for dr, dc in STEP]
    return [(f == NODIR) == z3.Not(z3.Or(lower))] + [z3.Implies(f == d, lower[d]) for d in range(8)]


class Steepest(Contract):
    """What the first-greatest-slope contract means: no direction exactly when no neighbour is lower, and otherwise
    the neighbour flowed to is lower."""

    def prove(self, ex):
        ex.topname = 'meaning of steepest descent'
        T = z3.Function('T', I, I, z3.RealSort())
        f = z3.Int('f')
        st = State()
        for t in fp_slopes(T, r, c):
            st.assume(t)
        st.assume(steepest(T, f, r, c))
        m = meaning(T, f, r, c)
        ex.obl(st, 'no direction exactly when no neighbour is lower', m[0], 'lemma')
        ex.obl(st, 'the cell flowed to is lower', z3.And(m[1:]), 'lemma')


class Outward(Contract):
    """Edge cells flow straight off the raster, corners diagonally; other cells keep their direction."""
    quals = (FP + 'set_edges_flow_outward',)
    params = ('flowdir',)

    def setup(self, ex, st, fn):
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', dims(st))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.flowdir, 2)

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.flowdir)
        return [('at least 2x2 cells', z3.And(H >= 2, W >= 2))]

    def modifies(self, ex, st, a, g):
        return [a.flowdir]

    def post(self, ex, old, st, a, g, res):
        H, W = shape_of(old, a.flowdir)
        F, F0 = fn_of(st, a.flowdir), fn_of(old, a.flowdir)
        return [('edge cells flow off the raster', forall([r, c], z3.Implies(edge(r, c, H, W), outward(F(r, c), r, c, H, W)), F(r, c))),
                ('interior cells keep their direction', forall([r, c], z3.Implies(interior(r, c, H, W), F(r, c) == F0(r, c)), F(r, c)))]


class FlowDir(D8):
    """The flow direction raster of a terrain."""
    quals = (FP + 'terrain_flowdirection',)
    params = ('terrain', 'edges_flow_outward')

    def setup(self, ex, st, fn):
        return {'terrain': arr(ex, st, 'terrain', 'f8', dims(st)), 'edges_flow_outward': N(z3.Bool('edges_flow_outward'), 'bool')}

    def accepts(self, ex, st, a):
        return D8.accepts(self, ex, st, a) and is_num(a.edges_flow_outward)

    def post(self, ex, old, st, a, g, res):
        self.out = NOT(falsy(a.edges_flow_outward))
        return D8.post(self, ex, old, st, a, g, res)

    def edges(self, F, H, W):
        return [('edge cells flow off the raster or nowhere, as asked', forall([r, c], z3.Implies(edge(r, c, H, W),
                    z3.If(self.out, outward(F(r, c), r, c, H, W), F(r, c) == NODIR)), F(r, c)))]

    def loops(self, ex, entry, a, g):
        return {}


class Delta(Contract):
    """The step belonging to a direction code; nothing for the code without direction."""
    quals = (FP + 'direction_to_delta',)
    params = ('direction',)

    def setup(self, ex, st, fn):
        return {'direction': integer(st, 'direction')}

    def accepts(self, ex, st, a):
        return isinstance(a.direction, N) and a.direction.k in INTK

    def result(self, ex, st, a, g):
        d = iterm(a.direction)
        return Opt(d == NODIR, (N(drow(d), 'int'), N(dcol(d), 'int')))

    def raises(self, ex, st, a, g):
        d = iterm(a.direction)
        return [('Exception', z3.Or(d < 0, d > 8))]

    def post(self, ex, old, st, a, g, res):
        d = iterm(a.direction)
        if isinstance(res, Opt):
            none, v = res.isnone, res.v
        else:
            none, v = z3.BoolVal(res is None), res
        if not (isinstance(v, tuple) and len(v) == 2):
            return [('result is a pair', z3.BoolVal(False))]
        return [('none exactly for the code without direction', none == (d == NODIR)),
                ('row step', z3.Implies(z3.Not(none), iterm(v[0]) == drow(d))), ('column step', z3.Implies(z3.Not(none), iterm(v[1]) == dcol(d)))]


# ------------------------------------------------------------------ C04
class Path(object):
    """ghost: the downstream path p(0), p(1), .. of a cell; length n when it ends"""

    def __init__(self, D, H, W, r0, c0):
        self.D, self.H, self.W = D, H, W
        self.pr, self.pc = freshf('path_row', I, I), freshf('path_col', I, I)
        self.start = z3.And(self.pr(0) == r0, self.pc(0) == c0)

    def at(self, k):
        return self.pr(k), self.pc(k)

    def flows(self, k):
        """the path goes on after its k-th cell"""
        return self.D(*self.at(k)) != NODIR

    def step(self):
        k = z3.Int('k')
        d = self.D(*self.at(k))
        return forall([k], z3.Implies(z3.And(k >= 0, inside(self.pr(k), self.pc(k), self.H, self.W), d >= 0, d < NODIR),
                                      z3.And(self.pr(k + 1) == self.pr(k) + drow(d), self.pc(k + 1) == self.pc(k) + dcol(d))), AT(k))


def codes(D, H, W):
    """the directions are codes 0..8"""
    return forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(D(r, c) >= 0, D(r, c) <= NODIR)), D(r, c))


class Trace(Contract):
    """Yields exactly the cells of the downstream path: the given cell first, then as long as the path stays in the
    raster, ending at the last cell inside or at one without direction."""
    quals = (FP + 'trace_downstream',)
    params = ('flowdir', 'cell')
    generator = True

    def setup(self, ex, st, fn):
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', dims(st)), 'cell': (integer(st, 'row'), integer(st, 'col'))}

    def accepts(self, ex, st, a):
        return False      # consumers execute the generator in line

    def as_iter(self, ex, st, gen):
        return None

    def ghost(self, ex, st, a):
        if not hasattr(self, 'p') or self.p[0] is not ex:
            H, W = shape_of(st, a.flowdir)
            self.p = ex, Path(fn_of(st, a.flowdir), H, W, iterm(a.cell[0]), iterm(a.cell[1]))
        st.assume(self.p[1].start)
        st.assume(self.p[1].step())
        st.assume(AT_AX)
        return self.p[1]

    def pre(self, ex, st, a, g):
        return [('direction codes', codes(g.D, g.H, g.W))]

    def seq(self, ex, st, a):
        return ex.to_seq(st.heap[a.yielded.id])

    def upto(self, ex, st, a, g, n):
        s = self.seq(ex, st, a)
        j = z3.Int('j')
        none, v = some(s.at(j))
        if v is None:
            return [('number of cells', s.n == n)]
        return [('number of cells', s.n == n),
                ('cells in path order', forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Not(none), iterm(v[0]) == g.pr(j), iterm(v[1]) == g.pc(j))), g.pr(j))),
                ('all inside the raster', forall([j], z3.Implies(z3.And(j >= 0, j < n), inside(g.pr(j), g.pc(j), g.H, g.W)), g.pr(j))),
                ('all but the last have a direction', forall([j], z3.Implies(z3.And(j >= 0, j < n - 1), g.flows(j)), g.pr(j)))]

    def post(self, ex, old, st, a, g, res):
        s = self.seq(ex, st, a)
        n = s.n
        return self.upto(ex, st, a, g, n) + [
            ('begins with the given cell if it is in the raster', (n > 0) == inside(g.pr(0), g.pc(0), g.H, g.W)),
            ('ends only where the path ends', z3.Or(n == 0, z3.Not(g.flows(n - 1)), z3.Not(inside(g.pr(n), g.pc(n), g.H, g.W))))]

    def loops(self, ex, entry, a, g):
        def inv(cc):
            return [('mark', z3.And(AT(cc.k), AT(cc.k - 1)))] + self.upto(ex, cc.st, a, g, cc.k)

        def cand(cc):
            out = []
            for nm, none, x, y in cellopts(cc):
                out += [('%s is next on the path' % nm, z3.Implies(z3.Not(none), z3.And(x == g.pr(cc.k), y == g.pc(cc.k)))),
                        ('%s is none only after a cell without direction' % nm, z3.And(z3.Implies(none, z3.And(cc.k > 0, z3.Not(g.flows(cc.k - 1)))),
                            z3.Implies(z3.Not(none), z3.Or(cc.k == 0, g.flows(cc.k - 1)))))]
            return out
        return {1: LoopSpec(inv, cand)}


class Leaves(Contract):
    """On a raster whose interior cells flow to lower ones and whose edge cells flow outward, no downstream path meets
    a cell twice, goes on at every interior cell and ends exactly at an edge cell, by leaving the raster."""

    def prove(self, ex):
        ex.topname = 'paths of a draining raster'
        H, W = z3.Ints('H W')
        D, T = z3.Function('D', I, I, I), z3.Function('T', I, I, z3.RealSort())
        p = Path(D, H, W, z3.Int('r0'), z3.Int('c0'))
        st = State()
        for t in (H >= 2, W >= 2, p.start, p.step(), AT_AX, codes(D, H, W), inside(p.pr(0), p.pc(0), H, W)):
            st.assume(t)
        # proved for the DEM stage: chain.Dem
        st.assume(forall([r, c], z3.Implies(interior(r, c, H, W), z3.And(D(r, c) >= 0, D(r, c) < NODIR)), D(r, c)))
        st.assume(forall([r, c], z3.Implies(edge(r, c, H, W), outward(D(r, c), r, c, H, W)), D(r, c)))
        for d, (dr, dc) in enumerate(STEP):
            st.assume(forall([r, c], z3.Implies(z3.And(interior(r, c, H, W), D(r, c) == d), T(r + dr, c + dc) < T(r, c)), D(r, c)))
        i, j, n = z3.Ints('i j n')
        cell = lambda k: (p.pr(k), p.pc(k))
        inn = lambda k: interior(*(cell(k) + (H, W)))
        on = lambda k: inside(*(cell(k) + (H, W)))
        t = lambda k: T(*cell(k))
        st.assume(n >= 0)
        # the first n+1 cells are in the raster
        st.assume(forall([i], z3.Implies(z3.And(i >= 0, i <= n), on(i)), p.pr(i)))
        lemma(ex, st, ('a path goes on from every cell', forall([i], z3.Implies(z3.And(AT(i), i >= 0, i <= n), D(*cell(i)) != NODIR), p.pr(i))))
        lemma(ex, st, ('from an edge cell it leaves the raster', forall([i], z3.Implies(z3.And(AT(i), i >= 0, i <= n, z3.Not(inn(i))), z3.Not(on(i + 1))), p.pr(i))))
        lemma(ex, st, ('from an interior cell it stays', forall([i], z3.Implies(z3.And(AT(i), i >= 0, i <= n, inn(i)), z3.And(on(i + 1), t(i + 1) < t(i))), p.pr(i))))
        lemma(ex, st, ('all but the last cell are interior', forall([i], z3.Implies(z3.And(AT(i), i >= 0, i < n), z3.And(on(i + 1), inn(i))), p.pr(i))))
        lemma(ex, st, Induct('the path descends', [i, j], z3.And(i >= 0, i < j, j <= n), j, t(j) < t(i), [[p.pr(i), p.pr(j)]], using=[AT(j - 1)]))
        ex.obl(st, 'no cell is met twice', forall([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= n), z3.Or(p.pr(i) != p.pr(j), p.pc(i) != p.pc(j)))), 'lemma')
        ex.obl(st, 'it ends at an edge cell, by leaving the raster', z3.Implies(z3.And(AT(n), z3.Not(on(n + 1))), edge(*(cell(n) + (H, W)))), 'lemma')


# ------------------------------------------------------------------ C05
def flows_in(D, H, W, r, c, d):
    """the neighbour in direction d is in the raster and flows to (r, c)"""
    dr, dc = STEP[d]
    return z3.And(inside(r + dr, c + dc, H, W), D(r + dr, c + dc) == (d + 4) % 8)


def total(A, D, H, W, r, c):
    """1 + sum of A over the neighbours flowing in"""
    return 1 + z3.Sum([z3.If(flows_in(D, H, W, r, c, d), A(r + STEP[d][0], c + STEP[d][1]), 0) for d in range(8)])


class Count(object):
    """ghost: the number of cells draining through each cell of an acyclic direction raster"""

    def __init__(self, D, H, W):
        self.D, self.H, self.W = D, H, W
        self.A = freshf('draining', I, I, I)
        A = self.A
        self.ax = [forall([r, c], A(r, c) >= 1, A(r, c)),
                   z3.ForAll([r, c], z3.Implies(z3.And(HERE(r, c), inside(r, c, H, W)), A(r, c) == total(A, D, H, W, r, c)), patterns=[HERE(r, c)])]

    def ups(self, r, c):
        return [(flows_in(self.D, self.H, self.W, r, c, d), (r + STEP[d][0], c + STEP[d][1])) for d in range(8)]

    def leaf(self, r, c):
        return z3.And([z3.Not(u) for u, _ in self.ups(r, c)])

    def closed(self, acc, r, c):
        """counted, or waiting for a neighbour not yet counted"""
        return z3.Or([acc(r, c) != 0] + [z3.And(u, acc(*x) == 0) for u, x in self.ups(r, c)])

    def valid(self, acc):
        return forall([r, c], z3.Implies(inside(r, c, self.H, self.W), z3.Or(acc(r, c) == 0, acc(r, c) == z3.ToReal(self.A(r, c)))), acc(r, c))


class TraceAcc(Contract):
    """Counts onward from a cell: afterwards a cell is only uncounted if it was not before the turn of the given one or
    still waits for a neighbour flowing in."""
    quals = (FP + 'trace_accumulated_flow', FC + 'trace_accumulated_flow', FC + 'trace_accumulated_flow_cython')
    params = ('flowdir', 'accum', 'cell')
    fp = 'real'

    def setup(self, ex, st, fn):
        d = dims(st)
        x = integer(st, 'row'), integer(st, 'col')
        t = getattr(fn.node, 'ctypes', {}).get('cell')
        if t and t[0] == 'struct':
            x = StructV(t[1], {'r': x[0], 'c': x[1]})
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', d), 'accum': arr(ex, st, 'accum', 'f8', d), 'cell': x}

    def accepts(self, ex, st, a):
        return is_arr(st, a.flowdir, 2) and is_arr(st, a.accum, 2) and self.cell(a) is not None

    def cell(self, a):
        v = a.cell
        if isinstance(v, tuple) and len(v) == 2:
            return iterm(v[0]), iterm(v[1])
        if isinstance(v, StructV) and 'r' in v.f and 'c' in v.f:
            return iterm(v.f['r']), iterm(v.f['c'])

    def ghost(self, ex, st, a):
        D = fn_of(st, a.flowdir)
        H, W = shape_of(st, a.flowdir)
        key = 'count', a.flowdir.id
        if key not in st.ghost or st.ghost[key].D is not D:
            g = Count(D, H, W)
            st.ghost[key] = g
            for t in g.ax + [HERE_AX[1], codes(D, H, W)]:
                st.assume(t)
        return st.ghost[key]

    def pre(self, ex, st, a, g):
        h, w = shape_of(st, a.accum)
        return [('same shape', z3.And(h == g.H, w == g.W)), ('counts are right or missing', g.valid(fn_of(st, a.accum))),
                ('cell in raster', inside(*(self.cell(a) + (g.H, g.W))))]

    def modifies(self, ex, st, a, g):
        return [a.accum]

    def now(self, old, acc, g, at):
        return [('counts are right or missing', g.valid(acc)),
                ('no count is lost', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), old(r, c) != 0), acc(r, c) != 0), acc(r, c))),
                ('cells uncounted wait for a neighbour', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), z3.Or(g.closed(old, r, c), at)), g.closed(acc, r, c)), acc(r, c)))]

    def post(self, ex, old, st, a, g, res):
        x, y = self.cell(a)
        return self.now(fn_of(old, a.accum), fn_of(st, a.accum), g, z3.And(r == x, c == y))

    def loops(self, ex, entry, a, g):
        x, y = self.cell(a)
        old = fn_of(entry, a.accum)

        def inv(cc):
            return self.now(old, fn_of(cc.st, a.accum), g, z3.BoolVal(False))[:2] + marks(cc)

        def cand(cc):
            acc = fn_of(cc.st, a.accum)
            out = []
            for nm, p, q in cellvars(cc):
                out.append(('all but %s wait' % nm, forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), z3.Or(g.closed(old, r, c), z3.And(r == x, c == y)),
                    z3.Or(r != p, c != q)), g.closed(acc, r, c)), acc(r, c))))
            return out
        return {1: LoopSpec(inv, cand)}


class Accumulate(TraceAcc):
    """Every cell gets the number of cells draining through it."""
    quals = (FP + 'accumulated_flow', FC + 'accumulated_flow')
    params = ('flowdir',)

    def setup(self, ex, st, fn):
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', dims(st))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.flowdir, 2)

    def pre(self, ex, st, a, g):
        return []

    def modifies(self, ex, st, a, g):
        return []

    def result(self, ex, st, a, g):
        return arr(ex, st, str(fresh('accum', I)), 'f8', st.heap[a.flowdir.id].shape)

    def lemmas(self, ex, old, st, a, g, res):
        acc = fn_of(st, res)
        return [Induct('every cell is counted', [r, c], inside(r, c, g.H, g.W), g.A(r, c), acc(r, c) != 0, [acc(r, c)], using=[g.A(r, c) >= 1, g.A(r, c) == total(g.A, g.D, g.H, g.W, r, c)])]

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 2):
            return [('result is an array', z3.BoolVal(False))]
        h, w = shape_of(st, res)
        acc = fn_of(st, res)
        return [('same shape', z3.And(h == g.H, w == g.W)),
                ('every cell has the number of cells draining through it', forall([r, c], z3.Implies(inside(r, c, g.H, g.W), acc(r, c) == z3.ToReal(g.A(r, c))), acc(r, c)))]

    def loops(self, ex, entry, a, g):
        def inv(todo):
            def f(cc):
                out = list(marks(cc))
                for i, ar in arrays(cc):
                    acc = ar.fn
                    out += [('counts are right or missing', g.valid(acc)),
                            ('cells uncounted wait for a neighbour or their turn', forall([r, c], z3.Implies(inside(r, c, g.H, g.W),
                                z3.Or(g.closed(acc, r, c), z3.And(g.leaf(r, c), todo(cc)))), acc(r, c)))]
                return out
            return f
        return {1: LoopSpec(inv(lambda cc: r >= cc.k), lambda cc: [('k <= rows', cc.k <= g.H)]),
                2: LoopSpec(inv(lambda cc: z3.Or(r > cc.up().k, z3.And(r == cc.up().k, c >= cc.k))), lambda cc: [('k <= columns', cc.k <= g.W)])}


# ------------------------------------------------------------------ C06
class Edges(Contract):
    """Yields exactly the edge cells."""
    quals = ('malstroem.algorithms._raster_utils.edge_cell_indexes',)
    params = ('shape',)
    generator = True

    def setup(self, ex, st, fn):
        return {'shape': tuple(dims(st))}

    def dims(self, a):
        return [iterm(x) for x in a.shape]

    def accepts(self, ex, st, a):
        return isinstance(a.shape, tuple) and len(a.shape) == 2

    def pre(self, ex, st, a, g):
        H, W = self.dims(a)
        return [('at least 2x2 cells', z3.And(H >= 2, W >= 2))]

    def result(self, ex, st, a, g):
        n, er, ec = fresh('edges', I), freshf('edge_row', I, I), freshf('edge_col', I, I)
        self.idx = freshf('edge_idx', I, I, I)
        return ex.alloc(st, SeqC(n, lambda k: (N(er(k), 'int'), N(ec(k), 'int'))))

    def post(self, ex, old, st, a, g, res):
        H, W = self.dims(a)
        if res is None:
            s = ex.to_seq(st.heap[a.yielded.id])
            idx = lambda r, c: z3.If(r == 0, 2 * c, z3.If(r == H - 1, 2 * c + 1, z3.If(c == 0, 2 * W + 2 * (r - 1), 2 * W + 2 * (r - 1) + 1)))
        else:
            s, idx = st.heap[res.id], self.idx
        j = z3.Int('j')
        none, v = some(s.at(j))
        if v is None:
            return [('yields cells', z3.BoolVal(False))]
        er, ec = iterm(v[0]), iterm(v[1])
        t = idx(r, c)
        w = s.at(t)
        w = some(w)[1]
        return [('a number of cells', s.n >= 0),
                ('only edge cells', forall([j], z3.Implies(z3.And(j >= 0, j < s.n), z3.And(z3.Not(none), edge(er, ec, H, W))), er)),
                ('every edge cell', forall([r, c], z3.Implies(z3.And([edge(r, c, H, W)] + ([AT(r - 1), AT(c)] if res is None else [])),
                    z3.And(t >= 0, t < s.n, iterm(w[0]) == r, iterm(w[1]) == c)), t))]

    def loops(self, ex, entry, a, g):
        H, W = self.dims(a)

        def at(cc, j, row, col):
            s = ex.to_seq(cc.st.heap[a.yielded.id])
            none, v = some(s.at(j))
            return z3.BoolVal(True) if v is None else z3.And(z3.Not(none), iterm(v[0]) == row, iterm(v[1]) == col)

        def inv(first):
            def f(cc):
                j = z3.Int('j')
                n = 2 * cc.k if first else 2 * W + 2 * cc.k
                m = z3.If(n < 2 * W, n, 2 * W)
                sq = ex.to_seq(cc.st.heap[a.yielded.id])
                none, v = some(sq.at(j))
                out = [('number of cells', sq.n == n),
                       ('cells of first and last row', z3.ForAll([j], z3.Implies(AT(j), z3.And(z3.Implies(z3.And(j >= 0, 2 * j < m), at(cc, 2 * j, 0, j)),
                            z3.Implies(z3.And(j >= 0, 2 * j + 1 < m), at(cc, 2 * j + 1, H - 1, j)))), patterns=[AT(j)]))]
                if v is not None:
                    out.append(('only edge cells', forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Not(none), edge(iterm(v[0]), iterm(v[1]), H, W))), iterm(v[0]))))
                if not first:
                    out.append(('cells of first and last column', z3.ForAll([j], z3.Implies(AT(j), z3.Implies(z3.And(j >= 0, j < cc.k), z3.And(at(cc, 2 * W + 2 * j, 1 + j, 0), at(cc, 2 * W + 2 * j + 1, 1 + j, W - 1)))), patterns=[AT(j)])))
                return out
            return f
        return {(0,): LoopSpec(inv(True), lambda cc: [('k <= columns', cc.k <= W)]), (1,): LoopSpec(inv(False), lambda cc: [('k <= rows', cc.k <= H - 2)])}


class Drain(object):
    """ghost: which cells drain off the raster, where (ex), after how many steps (rk); and the label WL a cell must
    get, WL(x) = its own original label, or that of the next cell downstream"""

    def __init__(self, D, H, W, L0, un):
        self.D, self.H, self.W, self.L0, self.un = D, H, W, L0, un
        self.dr = freshf('drains', I, I, B)
        self.exr, self.exc = freshf('exit_row', I, I, I), freshf('exit_col', I, I, I)
        self.rk = freshf('steps', I, I, I)
        self.WL = freshf('watershed', I, I, I)

    def below_in(self, d, r, c):
        """the same for a cell flowing in direction d"""
        n = r + STEP[d][0], c + STEP[d][1]
        return z3.If(inside(*(n + (self.H, self.W))), self.WL(*n), self.un)

    def at(self, r, c):
        """the defining facts at a cell, by its direction"""
        out = [z3.Implies(self.D(r, c) == NODIR, z3.And(z3.Not(self.dr(r, c)), self.WL(r, c) == self.L0(r, c)))]
        for d, (dr, dc) in enumerate(STEP):
            n = r + dr, c + dc
            on = inside(*(n + (self.H, self.W)))
            out.append(z3.Implies(self.D(r, c) == d, z3.And(
                self.dr(r, c) == z3.Or(z3.Not(on), self.dr(*n)),
                z3.Implies(z3.And(self.dr(r, c), on), z3.And(self.exr(r, c) == self.exr(*n), self.exc(r, c) == self.exc(*n), self.rk(*n) < self.rk(r, c))),
                z3.Implies(z3.Not(on), z3.And(self.exr(r, c) == r, self.exc(r, c) == c)),
                self.WL(r, c) == z3.If(self.L0(r, c) != self.un, self.L0(r, c), self.below_in(d, r, c)))))
        return out

    def axioms(self, rng):
        return [forall([r, c], z3.Implies(inside(r, c, self.H, self.W), t), self.D(r, c)) for t in self.at(r, c)] + [
                forall([r, c], self.rk(r, c) >= 0, self.rk(r, c)),
                forall([r, c], z3.And(self.WL(r, c) >= rng[0], self.WL(r, c) <= rng[1]), self.WL(r, c))]

    def leaves(self, r, c):
        """a cell flowing off the raster"""
        return z3.And([edge(r, c, self.H, self.W), self.D(r, c) != NODIR] +
                      [z3.Implies(self.D(r, c) == d, z3.Not(inside(r + dr, c + dc, self.H, self.W))) for d, (dr, dc) in enumerate(STEP)])

    def region(self, r, c, s):
        return z3.And(inside(r, c, self.H, self.W), self.dr(r, c), self.exr(r, c) == s[0], self.exc(r, c) == s[1])


class Exits(Contract):
    """A draining cell drains through an edge cell flowing off the raster."""

    def prove(self, ex):
        ex.topname = 'exits are edge cells'
        g = Drain(z3.Function('D', I, I, I), z3.Int('H'), z3.Int('W'), z3.Function('L0', I, I, I), z3.Int('un'))
        st = State()
        for t in g.axioms((-2**31, 2**31 - 1)) + [codes(g.D, g.H, g.W)]:
            st.assume(t)
        lemma(ex, st, Induct('exits are edge cells', [r, c], z3.And(inside(r, c, g.H, g.W), g.dr(r, c)), g.rk(r, c), exits(g, r, c), [g.dr(r, c)],
                             using=g.at(r, c) + [z3.And(g.D(r, c) >= 0, g.D(r, c) <= NODIR)]))


def exits(g, r, c):
    x, y = g.exr(r, c), g.exc(r, c)
    return z3.And(edge(x, y, g.H, g.W), g.leaves(x, y))


class Shed(Contract):
    """Assigns the cells draining through one edge cell: each gets the label of the first labelled cell downstream."""
    quals = (FP + 'assign_watersheds_upstream', FC + 'assign_watersheds_upstream')
    params = ('flowdir', 'labelled', 'cell', 'unassigned')
    variant = 'i4'
    solver_timeout = 60

    def setup(self, ex, st, fn):
        d = dims(st)
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', d), 'labelled': arr(ex, st, 'labelled', self.variant, d),
                'cell': (integer(st, 'row'), integer(st, 'col')), 'unassigned': integer(st, 'unassigned')}

    def accepts(self, ex, st, a):
        return is_arr(st, a.flowdir, 2) and is_arr(st, a.labelled, 2) and is_num(a.unassigned) and isinstance(a.cell, tuple) and len(a.cell) == 2

    def ghost(self, ex, st, a):
        key = 'drain', a.labelled.id
        if key not in st.ghost:
            D, un = fn_of(st, a.flowdir), iterm(a.unassigned)
            H, W = shape_of(st, a.flowdir)
            L0 = freshf('original', I, I, I)
            g = st.ghost[key] = Drain(D, H, W, L0, un)
            rng = RANGE[st.heap[a.labelled.id].dt.k]
            for t in g.axioms(rng):
                st.assume(t)
            st.assume(forall([r, c], z3.Implies(z3.And(inside(r, c, H, W), g.dr(r, c)), exits(g, r, c)), g.exr(r, c)))     # proved: Exits
            st.assume(codes(D, H, W))
        return st.ghost[key]

    def start(self, a):
        return iterm(a.cell[0]), iterm(a.cell[1])

    def either(self, g, L):
        return forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), g.dr(r, c)), z3.Or(L(r, c) == g.L0(r, c), L(r, c) == g.WL(r, c))), L(r, c))

    def pre(self, ex, st, a, g):
        h, w = shape_of(st, a.labelled)
        s = self.start(a)
        lo, hi = RANGE[st.heap[a.labelled.id].dt.k]
        return [('same shape', z3.And(h == g.H, w == g.W)), ('distinct arrays', z3.BoolVal(a.flowdir.id != a.labelled.id)),
                ('label type holds the value for unassigned', z3.And(g.un >= lo, g.un <= hi, g.un == iterm(a.unassigned))),
                ('starts at a cell flowing off the raster', g.leaves(*s)),
                ('labels are the original or the final ones', self.either(g, fn_of(st, a.labelled)))]

    def modifies(self, ex, st, a, g):
        return [a.labelled]

    def post(self, ex, old, st, a, g, res):
        L, L0 = fn_of(st, a.labelled), fn_of(old, a.labelled)
        return [('cells draining through the given one have the label of the first labelled cell downstream',
                    forall([r, c], z3.Implies(g.region(r, c, self.start(a)), L(r, c) == g.WL(r, c)), L(r, c))),
                ('other cells keep their label', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), z3.Not(g.region(r, c, self.start(a)))), L(r, c) == L0(r, c)), L(r, c)))]

    def on_pop(self, ex, st, v):
        V = st.ghost['visited']
        x, y = (v.f['r'].t, v.f['c'].t) if isinstance(v, StructV) else (v[0].t, v[1].t)
        st.ghost['visited'] = lambda a, b: z3.Or(V(a, b), z3.And(a == x, b == y))

    def lemmas(self, ex, old, st, a, g, res):
        V = st.ghost['visited']
        s = self.start(a)
        return [Induct('every cell draining through the given one is visited', [r, c], g.region(r, c, s), g.rk(r, c), V(r, c), [g.dr(r, c)], using=g.at(r, c))]

    def loops(self, ex, entry, a, g):
        entry.ghost['visited'] = lambda x, y: z3.BoolVal(False)
        s = self.start(a)
        Lin = fn_of(entry, a.labelled)

        def repr(ex, st, fr):
            out = {}
            for nm, v in st.envs[fr.fid].items():
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListC):
                    b = ex.lib.bagify(ex, st.heap[v.id])
                    if b is not None:
                        out[v.id] = b
            st.ghost['visited'] = lambda x, y: z3.BoolVal(False)
            return out

        def inv(cc):
            L = fn_of(cc.st, a.labelled)
            V = cc.st.ghost['visited']
            l = z3.Int('l')
            reg = lambda r, c: g.region(r, c, s)
            out = [('visited cells have their label', forall([r, c], z3.Implies(V(r, c), z3.And(reg(r, c), L(r, c) == g.WL(r, c))), V(r, c), L(r, c))),
                   ('cells have the original or final label', self.either(g, L)),
                   ('other cells keep their label', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), z3.Not(reg(r, c))), L(r, c) == Lin(r, c)), L(r, c)))]
            for i in sorted(cc.st.heap):
                b = cc.st.heap[i]
                if isinstance(b, BagC):
                    m = lambda r, c, l: b.mem(*self.order(b, r, c, l))
                    out += [('listed means not empty', forall([r, c, l], z3.Implies(m(r, c, l), b.nonempty), m(r, c, l))),
                            ('listed cells drain through the given one', forall([r, c, l], z3.Implies(m(r, c, l), reg(r, c)), m(r, c, l))),
                            ('the given cell is visited or listed', z3.Or(V(*s), m(s[0], s[1], g.un)))]
                    for d, (dr, dc) in enumerate(STEP):      # by the direction the cell above flows in
                        x = r + dr, c + dc
                        out.append(('cells above visited ones (direction %d) are visited or listed' % d, forall([r, c], z3.Implies(z3.And(reg(r, c), g.D(r, c) == d,
                            inside(x[0], x[1], g.H, g.W), V(*x)), z3.Or(V(r, c), m(r, c, g.WL(*x)))), V(r, c), g.D(r, c))))
                        out.append(('listed cells (direction %d) come with the label below' % d, forall([r, c, l], z3.Implies(z3.And(m(r, c, l), g.D(r, c) == d), l == g.below_in(d, r, c)), m(r, c, l))))
            return out
        sp = LoopSpec(inv, repr=repr)
        sp.ghost_havoc = {'visited': lambda st: freshf('visited', I, I, B)}
        return {1: sp}

    def order(self, b, r, c, l):
        """components in the order of the work list's items"""
        if isinstance(b.sample, StructV):
            d = {'r': r, 'c': c}
            return [d.get(k, l) for k in sorted(b.sample.f)]
        return [r, c, l]


class Sheds(Shed):
    """Every cell draining off the raster gets the label of the first labelled cell downstream, others keep theirs."""
    quals = (FP + 'watersheds_from_labels',)
    params = ('flowdir', 'labelled', 'unassigned')

    def setup(self, ex, st, fn):
        d = dims(st)
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', d), 'labelled': arr(ex, st, 'labelled', self.variant, d), 'unassigned': integer(st, 'unassigned')}

    def accepts(self, ex, st, a):
        return is_arr(st, a.flowdir, 2) and is_arr(st, a.labelled, 2) and is_num(a.unassigned)

    def ghost(self, ex, st, a):
        new = ('drain', a.labelled.id) not in st.ghost
        g = Shed.ghost(self, ex, st, a)
        if new and ex.top is not None and ex.top.ctr is not self:      # the original labels at a call are those given
            L = fn_of(st, a.labelled)
            st.assume(forall([r, c], g.L0(r, c) == L(r, c), g.L0(r, c), L(r, c)))
        if not hasattr(g, 'sr'):
            g.sr, g.sc = freshf('source_row', I, I, I), freshf('source_col', I, I, I)
        return g

    def source(self, g, r, c):
        """ghost: the first cell with a label on the way down (defined along the way a draining cell takes)"""
        out = []
        for d, (dr, dc) in enumerate(STEP):
            n = r + dr, c + dc
            on = inside(*(n + (g.H, g.W)))
            for S, own in ((g.sr, r), (g.sc, c)):
                out.append(z3.Implies(z3.And(inside(r, c, g.H, g.W), g.dr(r, c), g.D(r, c) == d), S(r, c) == z3.If(z3.And(g.L0(r, c) == g.un, on), S(*n), own)))
        return out

    def pre(self, ex, st, a, g):
        h, w = shape_of(st, a.labelled)
        lo, hi = RANGE[st.heap[a.labelled.id].dt.k]
        L = fn_of(st, a.labelled)
        return [('same shape', z3.And(h == g.H, w == g.W)), ('distinct arrays', z3.BoolVal(a.flowdir.id != a.labelled.id)),
                ('at least 2x2 cells', z3.And(h >= 2, w >= 2)),
                ('label type holds the value for unassigned', z3.And(g.un >= lo, g.un <= hi, g.un == iterm(a.unassigned))),
                ('edge cells flow off the raster', forall([r, c], z3.Implies(edge(r, c, g.H, g.W), g.leaves(r, c)), g.D(r, c))),
                ('original labels', forall([r, c], z3.Implies(inside(r, c, g.H, g.W), L(r, c) == g.L0(r, c)), L(r, c)))]

    def post(self, ex, old, st, a, g, res):
        L = fn_of(st, a.labelled)
        return [('cells draining off the raster have the label of the first labelled cell downstream',
                    forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), g.dr(r, c)), L(r, c) == g.WL(r, c)), L(r, c))),
                ('other cells keep their label', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), z3.Not(g.dr(r, c))), L(r, c) == g.L0(r, c)), L(r, c))),
                ('labels given are kept', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), z3.Or(g.L0(r, c) != g.un, edge(r, c, g.H, g.W))), L(r, c) == g.L0(r, c)), L(r, c))),
                ('no label is made up', forall([r, c], z3.Implies(inside(r, c, g.H, g.W), z3.Or(L(r, c) == g.un, L(r, c) == g.L0(r, c),
                                               z3.And(inside(g.sr(r, c), g.sc(r, c), g.H, g.W), L(r, c) == g.L0(g.sr(r, c), g.sc(r, c))))), L(r, c)))]

    def lemmas(self, ex, old, st, a, g, res):
        at = g.at(r, c) + self.source(g, r, c) + [z3.And(g.D(r, c) >= 0, g.D(r, c) <= NODIR)]
        x, y = g.sr(r, c), g.sc(r, c)
        return [Induct('labels come from a cell on the way down', [r, c], z3.And(inside(r, c, g.H, g.W), g.dr(r, c)), g.rk(r, c),
                       z3.Or(g.WL(r, c) == g.un, z3.And(inside(x, y, g.H, g.W), g.WL(r, c) == g.L0(x, y))), [g.dr(r, c)], using=at),
                Induct('a label given is its own', [r, c], z3.And(inside(r, c, g.H, g.W), g.dr(r, c), g.L0(r, c) != g.un), z3.IntVal(0), g.WL(r, c) == g.L0(r, c), [g.WL(r, c)], using=at),
                Induct('edge cells have their own', [r, c], edge(r, c, g.H, g.W), z3.IntVal(0), z3.And(inside(r, c, g.H, g.W), g.WL(r, c) == g.L0(r, c)), [g.WL(r, c)], using=at + [z3.Implies(edge(r, c, g.H, g.W), g.leaves(r, c))])]

    def loops(self, ex, entry, a, g):
        def inv(cc):
            L = fn_of(cc.st, a.labelled)
            x, y = g.exr(r, c), g.exc(r, c)
            idx = [ct.idx for ct in ex.contracts.values() if isinstance(ct, Edges)][0]
            return [('cells have the original or final label', self.either(g, L)),
                    ('other cells keep their label', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), z3.Not(g.dr(r, c))), L(r, c) == g.L0(r, c)), L(r, c))),
                    ('cells draining through edge cells done have their label', forall([r, c], z3.Implies(z3.And(inside(r, c, g.H, g.W), g.dr(r, c), idx(x, y) < cc.k), L(r, c) == g.WL(r, c)), L(r, c)))]
        return {1: LoopSpec(inv)}


CONTRACTS = [Trace(), Leaves(), D8(), Steepest(), Outward(), FlowDir(), Delta(), TraceAcc(), Accumulate(), Edges(), Exits(), Shed(), Sheds()]
