"""Contracts of malstroem.algorithms.net (C10, C11)."""
from .features import *
from .flow import codes

Q = 'malstroem.algorithms.net.'
R = z3.RealSort()
i, j, k = z3.Ints('i j k')


class Down(object):
    """ghost: the downstream path of every cell, and the index K at which the search for the next label ends: the first
    cell that is labelled otherwise (neither the own label nor the background), has no direction or is the last one in the
    raster; -1 when the path never ends"""

    def __init__(self, D, L, bg, H, W):
        self.D, self.L, self.H, self.W = D, L, H, W
        n, b = some(bg)
        self.isbg = (lambda v: z3.BoolVal(False)) if b is None else (lambda v: z3.And(z3.Not(n), v == iterm(b)))
        self.pr, self.pc, self.K = freshf('path_row', I, I, I, I), freshf('path_col', I, I, I, I), freshf('search_end', I, I, I)

    def at(self, r, c, k):
        return self.pr(r, c, k), self.pc(r, c, k)

    def label(self, r, c, k):
        return self.L(*self.at(r, c, k))

    def stop(self, r, c, k):
        v = self.label(r, c, k)
        return z3.And(v != self.L(r, c), z3.Not(self.isbg(v)))

    def on(self, r, c, k):
        return inside(self.pr(r, c, k), self.pc(r, c, k), self.H, self.W)

    def flows(self, r, c, k):
        return self.D(*self.at(r, c, k)) != NODIR

    def goes(self, r, c, k):
        """the search goes on after the k-th cell"""
        return z3.And(z3.Not(self.stop(r, c, k)), self.flows(r, c, k), self.on(r, c, k + 1))

    def found(self, r, c):
        return self.stop(r, c, self.K(r, c))

    def next(self, r, c):
        return self.label(r, c, self.K(r, c))

    def axioms(self):
        d = self.D(*self.at(r, c, k))
        K = self.K(r, c)
        ok = inside(r, c, self.H, self.W)
        return [z3.ForAll([r, c], z3.And(self.pr(r, c, 0) == r, self.pc(r, c, 0) == c), patterns=[self.pr(r, c, 0), K]),
                z3.ForAll([r, c, k], z3.Implies(z3.And(AT(k), k >= 0, self.on(r, c, k), d >= 0, d < NODIR),
                    z3.And(self.pr(r, c, k + 1) == self.pr(r, c, k) + drow(d), self.pc(r, c, k + 1) == self.pc(r, c, k) + dcol(d))), patterns=[z3.MultiPattern(AT(k), self.pr(r, c, k))]),
                z3.ForAll([r, c], z3.Implies(ok, z3.And(AT(K), K >= -1, z3.Implies(K >= 0, z3.And(self.on(r, c, K), z3.Not(self.goes(r, c, K)))))), patterns=[K]),
                z3.ForAll([r, c, k], z3.Implies(z3.And(AT(k), ok, k >= 0, z3.Or(K < 0, k < K)), z3.And(self.on(r, c, k), self.goes(r, c, k))), patterns=[z3.MultiPattern(AT(k), K)]),
                AT_AX]


def downs(ex, st, flowdir, labeled, bg):
    D, L = fn_of(st, flowdir), fn_of(st, labeled)
    n, b = some(bg)
    key = ('down', id(D), id(L), str(n), str(b if not isinstance(b, N) else b.t))
    tab = ex.__dict__.setdefault('ghosts', {})
    if key not in tab:
        H, W = shape_of(st, flowdir)
        tab[key] = Down(D, L, bg, H, W)
        tab[key].keep = D, L, bg
    if key not in st.ghost:
        st.ghost[key] = tab[key]
        for t in tab[key].axioms():
            st.assume(t)
    return tab[key]


class Next(Contract):
    """The label found is that of the first cell downstream labelled otherwise, none if there is none before the path
    ends; the path given is that of the search."""
    quals = (Q + 'next_downstream_label',)
    params = ('flowdir', 'labeled', 'cell', 'background_label', 'geometry')

    def setup(self, ex, st, fn):
        d = dims(st)
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', d), 'labeled': arr(ex, st, 'labeled', 'i4', d), 'cell': (integer(st, 'row'), integer(st, 'col')),
                'background_label': Opt(z3.Bool('background_none'), integer(st, 'background')), 'geometry': N(z3.Bool('geometry'), 'bool')}

    def cell(self, a):
        v = a.cell
        if isinstance(v, tuple) and len(v) == 2 and all(is_num(x) for x in v):
            return iterm(v[0]), iterm(v[1])
        return None

    def accepts(self, ex, st, a):
        return is_arr(st, a.flowdir, 2) and is_arr(st, a.labeled, 2) and self.cell(a) is not None

    def ghost(self, ex, st, a):
        return downs(ex, st, a.flowdir, a.labeled, a.background_label)

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.flowdir)
        h, w = shape_of(st, a.labeled)
        return [('direction codes', codes(g.D, g.H, g.W)), ('same shape', z3.And(H == h, W == w)), ('the cell is in the raster', inside(*(self.cell(a) + (H, W))))]

    def result(self, ex, st, a, g):
        f, h = freshf('geom_row', I, I), freshf('geom_col', I, I)
        return (Opt(fresh('nolabel', B), N(fresh('nextlabel', I), 'int')), ex.alloc(st, SeqC(fresh('ngeom', I), lambda x: (N(f(x), 'int'), N(h(x), 'int')))))

    def geom(self, ex, st, ref):
        c = st.heap.get(ref.id) if isinstance(ref, Ref) else None
        return ex.to_seq(c) if isinstance(c, (ListC, SeqC)) else None

    def cells(self, ex, st, a, g, s, n):
        """the list has the first n cells of the path if geometry is wanted, none otherwise"""
        r0, c0 = self.cell(a)
        want = z3.Not(falsy(a.geometry))
        out = [('number of cells', iterm(s.n) == z3.If(want, n, 0))]
        nn, v = some(s.at(j))
        if v is not None:
            if not (isinstance(v, tuple) and len(v) == 2):
                return [('cells are pairs', z3.BoolVal(False))]
            x = iterm(v[0])
            out.append(('cells in path order', forall([j], z3.Implies(z3.And(want, j >= 0, j < n), z3.And(z3.Not(nn), x == g.pr(r0, c0, j), iterm(v[1]) == g.pc(r0, c0, j))), x, g.pr(r0, c0, j))))
        return out

    def post(self, ex, old, st, a, g, res):
        if not isinstance(res, tuple) or len(res) != 2:
            return [('result is a pair', z3.BoolVal(False))]
        s = self.geom(ex, st, res[1])
        if s is None:
            return [('the path is a list', z3.BoolVal(False))]
        r0, c0 = self.cell(a)
        nn, v = some(res[0])
        K = g.K(r0, c0)
        return [('the path ends', K >= 0), ('none exactly when no other label is met', nn == z3.Not(g.found(r0, c0)))] + (
                [('the label met', z3.Implies(z3.Not(nn), iterm(v) == g.next(r0, c0)))] if v is not None else []) + self.cells(ex, st, a, g, s, K + 1)

    def loops(self, ex, entry, a, g):
        r0, c0 = self.cell(a)

        def inv(cc):
            out = [('mark', z3.And(AT(cc.k), AT(cc.k - 1), AT(cc.k + 1), AT(g.K(r0, c0)))),
                   ('the search has not ended before', forall([j], z3.Implies(z3.And(AT(j), j >= 0, j < cc.k), z3.And(g.on(r0, c0, j), z3.Not(g.stop(r0, c0, j)))), AT(j))),
                   ('the path goes on', forall([j], z3.Implies(z3.And(AT(j), j >= 0, j < cc.k - 1), g.goes(r0, c0, j)), AT(j)))]
            for h in sorted(cc.mod_heap):
                c = cc.st.heap.get(h)
                if isinstance(c, (ListC, SeqC)):
                    out += self.cells(ex, cc.st, a, g, ex.to_seq(c), cc.k)
            return out

        def cand(cc):
            out = []
            k = cc.k
            for nm, none, x, y in cellopts(cc):
                out += [('%s is next on the path' % nm, z3.Implies(z3.Not(none), z3.And(x == g.pr(r0, c0, k), y == g.pc(r0, c0, k)))),
                        ('%s is none only after a cell without direction' % nm, z3.And(z3.Implies(none, z3.And(k > 0, z3.Not(g.flows(r0, c0, k - 1)))),
                            z3.Implies(z3.Not(none), z3.Or(k == 0, g.flows(r0, c0, k - 1)))))]
            return out
        return {1: LoopSpec(inv, cand)}


PR, PC, PID = z3.Function('cell_row', I, I), z3.Function('cell_col', I, I), z3.Function('bspot_id', I, I)


class Network(Contract):
    """Every pour point becomes one node, in the order given, linked to the label met downstream of its own cell."""
    quals = (Q + 'pourpoint_network',)
    params = ('flowdir', 'labeled', 'pour_points', 'background_label')
    variant = 'cells'

    def setup(self, ex, st, fn):
        d = dims(st)
        n = z3.Int('npourpoints')
        st.assume(n >= 0)
        if self.variant == 'cells':
            pp = ex.alloc(st, SeqC(n, lambda i: (N(PR(i), 'int'), N(PC(i), 'int'))))
        else:
            pp, n = features(ex, st, {'bspot_id': lambda i: N(PID(i), 'int'), 'cell_row': lambda i: N(PR(i), 'int'), 'cell_col': lambda i: N(PC(i), 'int')}, 'npourpoints')
        return {'flowdir': arr(ex, st, 'flowdir', 'u1', d), 'labeled': arr(ex, st, 'labeled', 'i4', d), 'pour_points': pp, 'background_label': Opt(z3.Bool('background_none'), integer(st, 'background'))}

    def points(self, ex, st, a):
        """(number, id, row and column of the i-th pour point)"""
        c = st.heap.get(a.pour_points.id) if isinstance(a.pour_points, Ref) else None
        if isinstance(c, SeqC):
            e = c.at(i)
            if isinstance(e, tuple) and len(e) == 2 and all(is_num(x) and kind(x) in INTK for x in e):
                return iterm(c.n), i, iterm(e[0]), iterm(e[1])
        if isinstance(c, TreeC) and isinstance(c.v, SeqV) and isinstance(c.v.at(i), DictV) and isinstance(c.v.at(i).d.get('properties'), DictV):
            p = c.v.at(i).d['properties'].d
            if all(is_num(p.get(x)) for x in ('bspot_id', 'cell_row', 'cell_col')):
                return iterm(c.v.n), iterm(p['bspot_id']), iterm(p['cell_row']), iterm(p['cell_col'])
        return None

    def accepts(self, ex, st, a):
        return is_arr(st, a.flowdir, 2) and is_arr(st, a.labeled, 2) and self.points(ex, st, a) is not None

    def ghost(self, ex, st, a):
        g = downs(ex, st, a.flowdir, a.labeled, a.background_label)
        g.points = self.points(ex, st, a)
        return g

    def result(self, ex, st, a, g):
        f = [freshf(x, I, I) for x in ('node_id', 'node_down', 'node_row', 'node_col')]
        nn = freshf('node_ends', I, B)
        return ex.alloc(st, TreeC(SeqV(fresh('nnodes', I), lambda k: DictV({'id': N(f[0](k), 'int'), 'downstream_id': Opt(nn(k), N(f[1](k), 'int')), 'nodetype': 'pourpoint', 'pix': (N(f[2](k), 'int'), N(f[3](k), 'int'))}))))

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.flowdir)
        h, w = shape_of(st, a.labeled)
        n, _, r0, c0 = g.points
        return [('direction codes', codes(g.D, g.H, g.W)), ('same shape', z3.And(H == h, W == w)), ('pour points are in the raster', forall([i], z3.Implies(z3.And(i >= 0, i < n), inside(r0, c0, H, W)), r0, c0))]

    def nodes(self, ex, st, g, v, n):
        """the first n nodes are right"""
        try:
            s = ex.lib.as_seqv(ex, st.heap[v.id])
        except (Unsupported, AttributeError):
            return [('nodes are a list', z3.BoolVal(False))]
        out = [('one node for every pour point', iterm(s.n) == n)]
        e = s.at(i)
        e = ex.lib.deref(ex, st, e, raw=True) if isinstance(e, PRef) else e
        if isinstance(e, Undef) or e is None:
            return out + [('nodes are dicts', n <= 0)]
        if not isinstance(e, DictV) or set(e.d) < {'id', 'downstream_id', 'nodetype', 'pix'}:
            return out + [('nodes have an id, a type, a cell and a downstream id', z3.BoolVal(False))]
        nn, ds = some(e.d['downstream_id'])
        pix = e.d['pix']
        if not (isinstance(pix, tuple) and len(pix) == 2) or e.d['nodetype'] != 'pourpoint':
            return out + [('nodes are pour points with a cell', n <= 0)]
        _, pid, r0, c0 = g.points
        dom = z3.And(i >= 0, i < n)
        ps = [t for t in (r0, c0, iterm(e.d['id'])) if uf(t)]
        return out + [('id of the pour point', forall([i], z3.Implies(dom, iterm(e.d['id']) == pid), *ps)),
                      ('cell of the pour point', forall([i], z3.Implies(dom, z3.And(iterm(pix[0]) == r0, iterm(pix[1]) == c0)), *ps)),
                      ('none exactly when no other label is met', forall([i], z3.Implies(dom, nn == z3.Not(g.found(r0, c0))), *ps)),
                      ('downstream id is the label met', forall([i], z3.Implies(z3.And(dom, z3.Not(nn)), iterm(ds) == g.next(r0, c0)), *ps) if ds is not None else z3.BoolVal(True))]

    def post(self, ex, old, st, a, g, res):
        if not isinstance(res, Ref):
            return [('result is a list', z3.BoolVal(False))]
        return self.nodes(ex, st, g, res, g.points[0])

    def loops(self, ex, entry, a, g):
        def inv(cc):
            out = []
            for h in sorted(cc.mod_heap):
                if isinstance(cc.st.heap.get(h), (ListC, SeqC, TreeC)):
                    out += self.nodes(ex, cc.st, g, Ref(h), cc.k)
            return out
        return {(0,): LoopSpec(inv)}


NID, NDS, NLEN = z3.Function('node_id0', I, I), z3.Int('common_downstream'), z3.Function('path_length', I, I)
GR, GC = z3.Function('path_row0', I, I, I), z3.Function('path_col0', I, I, I)
NPR, NPC = z3.Function('node_row0', I, I), z3.Function('node_col0', I, I)


def deep(ex, st, v):
    return ex.lib.deref(ex, st, v, raw=True) if isinstance(v, PRef) else v


def cells_of(ex, st, v):
    """list of cells -> (length, row(k), column(k)) or None"""
    v = deep(ex, st, v)
    if isinstance(v, Ref):
        try:
            v = ex.lib.as_seqv(ex, st.heap[v.id])
        except (Unsupported, AttributeError, KeyError):
            return None
    if not isinstance(v, SeqV):
        return None

    def part(x):
        def f(k):
            e = ex_pair(v.at(k))
            return iterm(e[x])
        return f
    if ex_pair(v.at(k)) is None:
        return (v.n, None, None)
    return v.n, part(0), part(1)


def ex_pair(e):
    if isinstance(e, PUndef):
        e = e.v
    nn, e = some(e)
    if isinstance(e, tuple) and len(e) == 2 and all(is_num(x) for x in e):
        return e
    return None


class Prune(Contract):
    """Nodes whose paths share their last cells (and no path is the end of another): the cells shared by all become the
    path of one new node at the first of them, and the paths of the nodes are cut off there."""
    quals = (Q + '_prune_common_flow',)
    params = ('nodes', 'new_label_id')

    def setup(self, ex, st, fn):
        self.n = z3.Int('nnodes')
        st.assume(self.n >= 2)
        geom = lambda i: SeqV(NLEN(i), lambda k: (N(GR(i, k), 'int'), N(GC(i, k), 'int')))
        self.none = z3.Bool('leaves_the_raster')
        self.nodes = ex.alloc(st, TreeC(SeqV(self.n, lambda i: DictV({'id': N(NID(i), 'int'), 'downstream_id': Opt(self.none, N(NDS, 'int')), 'nodetype': 'pourpoint',
                                                                     'pix': (N(NPR(i), 'int'), N(NPC(i), 'int')), 'geometry': geom(i)}))))
        return {'nodes': self.nodes, 'new_label_id': integer(st, 'new_label')}

    def accepts(self, ex, st, a):
        return False

    def ghost(self, ex, st, a):
        g = type('G', (), {})()
        g.F, g.odd, g.new = z3.Int('nshared'), z3.Int('node_that_differs'), iterm(a.new_label_id)
        # t-th cell from the end of path i
        g.same = lambda i, t: z3.And(GR(i, NLEN(i) - 1 - t) == GR(0, NLEN(0) - 1 - t), GC(i, NLEN(i) - 1 - t) == GC(0, NLEN(0) - 1 - t))
        return g

    def pre(self, ex, st, a, g):
        return [('the number of shared cells', z3.And(g.F >= 2, g.odd >= 0, g.odd < self.n, z3.Not(g.same(g.odd, g.F)))),
                ('no path is the end of another', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), NLEN(i) > g.F), NLEN(i))),
                ('all paths share the cells', forall([i, k], z3.Implies(z3.And(i >= 0, i < self.n, k >= NLEN(i) - g.F, k < NLEN(i)),
                    z3.And(GR(i, k) == GR(0, k - NLEN(i) + NLEN(0)), GC(i, k) == GC(0, k - NLEN(i) + NLEN(0)))), GR(i, k), GC(i, k)))]

    def modifies(self, ex, st, a, g):
        return [self.nodes]

    def shared(self, s, n, lo):
        """s lists the last n cells of the paths; from the first (lo) or the last on"""
        m, row, col = s
        if row is None:
            return [('number of shared cells', z3.And(m == n, n == 0))]
        at = (lambda q: NLEN(0) - 1 - q) if not lo else (lambda q: NLEN(0) - n + q)
        return [('number of shared cells', m == n),
                ('shared cells', forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(row(j) == GR(0, at(j)), col(j) == GC(0, at(j)))), row(j), GR(0, at(j))))]

    def cut(self, ex, st, g, done):
        """the nodes that are done flow to the new one, the others are as they were"""
        s = ex.lib.as_seqv(ex, st.heap[self.nodes.id])
        e = deep(ex, st, s.at(i))
        if not isinstance(e, DictV) or set(e.d) != {'id', 'downstream_id', 'nodetype', 'pix', 'geometry'}:
            return [('nodes are as they were but for path and downstream id', z3.BoolVal(False))]
        nn, ds = some(e.d['downstream_id'])
        pix, geo = e.d['pix'], cells_of(ex, st, e.d['geometry'])
        if ex_pair(pix) is None or geo is None or geo[1] is None or ds is None or e.d['nodetype'] != 'pourpoint':
            return [('nodes are as they were but for path and downstream id', z3.BoolVal(False))]
        m, row, col = geo
        dom = z3.And(i >= 0, i < self.n)
        keep = NLEN(i) - g.F
        head = z3.And(row(keep) == GR(0, NLEN(0) - g.F), col(keep) == GC(0, NLEN(0) - g.F))
        return [('number of nodes', iterm(s.n) == self.n),
                ('id, type and cell of the nodes', forall([i], z3.Implies(dom, z3.And(iterm(e.d['id']) == NID(i), iterm(pix[0]) == NPR(i), iterm(pix[1]) == NPC(i))), iterm(e.d['id']), NID(i), NLEN(i))),
                ('downstream ids', forall([i], z3.Implies(dom, z3.If(done(i), z3.And(z3.Not(nn), iterm(ds) == g.new), z3.And(nn == self.none, z3.Implies(z3.Not(nn), iterm(ds) == NDS)))), iterm(e.d['id']), NID(i), NLEN(i))),
                ('length of the paths', forall([i], z3.Implies(dom, m == z3.If(done(i), keep + 1, NLEN(i))), NLEN(i))),
                ('cells that are kept', forall([i, k], z3.Implies(z3.And(dom, k >= 0, k < z3.If(done(i), keep, NLEN(i))), z3.And(row(k) == GR(i, k), col(k) == GC(i, k))), row(k), GR(i, k))),
                ('paths end at the new node', forall([i], z3.Implies(z3.And(dom, done(i)), head), NLEN(i), NID(i)))]

    def post(self, ex, old, st, a, g, res):
        if not isinstance(res, tuple) or len(res) != 2 or not isinstance(res[0], Ref) or not isinstance(res[1], Ref):
            return [('result is the nodes and the new node', z3.BoolVal(False))]
        c = st.heap.get(res[1].id)
        d = c.d if isinstance(c, DictC) else None
        if d is None or any(x not in d or d[x][0] is not None for x in ('id', 'downstream_id', 'nodetype', 'pix', 'geometry')):
            return [('the new node is a complete node', z3.BoolVal(False))]
        d = {k: v for k, (_, v) in d.items()}
        nn, ds = some(d['downstream_id'])
        geo = cells_of(ex, st, d['geometry'])
        pix = ex_pair(d['pix'])
        if ds is None or geo is None or pix is None or d['nodetype'] != 'junction':
            return [('the new node is a junction with cell and path', z3.BoolVal(False))]
        return [('the nodes are returned', z3.BoolVal(res[0].id == self.nodes.id)), ('id of the new node', iterm(d['id']) == g.new),
                ('the new node flows where the nodes flowed', z3.And(nn == self.none, z3.Implies(z3.Not(nn), iterm(ds) == NDS))),
                ('the new node is at the first shared cell', z3.And(iterm(pix[0]) == GR(0, NLEN(0) - g.F), iterm(pix[1]) == GC(0, NLEN(0) - g.F)))] + \
            self.shared(geo, g.F, True) + self.cut(ex, st, g, lambda i: z3.BoolVal(True))

    def loops(self, ex, entry, a, g):
        def copies(cc, done):
            """the copies of the paths, of which done(i) cells are cut off"""
            out = []
            for h in sorted(cc.mod_heap):
                c = cc.st.heap.get(h)
                if h == self.nodes.id or not isinstance(c, (TreeC, FamC)):
                    continue
                v = ex.lib.as_seqv(ex, c)
                geo = cells_of(ex, cc.st, v.at(i))
                if geo is None or geo[1] is None:
                    continue
                m, row, col = geo
                dom = z3.And(i >= 0, i < self.n)
                out += [('number of copies', iterm(v.n) == self.n), ('length of the copies', forall([i], z3.Implies(dom, m == NLEN(i) - done(i)), NLEN(i), m)),
                        ('cells of the copies', forall([i, k], z3.Implies(z3.And(dom, k >= 0, k < m), z3.And(row(k) == GR(i, k), col(k) == GC(i, k))), row(k), GR(i, k)))]
            return out

        def lists(cc):
            for h in sorted(cc.mod_heap):
                c = cc.st.heap.get(h)
                if isinstance(c, (ListC, SeqC)):
                    geo = cells_of(ex, cc.st, Ref(h))
                    if geo is not None:
                        yield geo

        def peel(cc):
            out = []
            for geo in lists(cc):
                out += self.shared(geo, cc.k, False)
            return [('shared so far', cc.k <= g.F)] + out + copies(cc, lambda i: cc.k)

        def each(cc):
            s = cc.up().k
            return copies(cc, lambda i: z3.If(i < cc.k, s + 1, s))

        def relink(cc):
            return self.cut(ex, cc.st, g, lambda i: i < cc.k) if self.nodes.id in cc.mod_heap else []
        return {(0,): LoopSpec(peel), (0, 0): LoopSpec(each), (1,): LoopSpec(relink)}


CONTRACTS = [Next(), Network(), Prune()]
