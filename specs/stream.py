"""Contracts of malstroem.streams (C12)."""
from .features import *
from .flow import codes
from . import net
from vf.contract import lemma

Q = 'malstroem.streams.'
R = z3.RealSort()
i, j, k = z3.Ints('i j k')
PR, PC, BID = z3.Function('cell_row', I, I), z3.Function('cell_col', I, I), z3.Function('bspot_id', I, I)
POS = z3.Function('pourpoint_of', I, I)
AREA, VOL, WSHED = [z3.Function(nm, I, R) for nm in ('bspot_area', 'bspot_vol', 'wshed_area')]
# the nodes of the network with junctions
NID, NDS, NR, NC, NG = [z3.Function('node_' + nm, I, I) for nm in ('id', 'down', 'row', 'col', 'cells')]
NDN, NPP = z3.Function('node_ends', I, B), z3.Function('node_is_pourpoint', I, B)
GR, GC = z3.Function('geom_row', I, I, I), z3.Function('geom_col', I, I, I)
HASG = z3.Function('paths_before', I, I)         # nodes with a path among the first k


class Geometric(Contract):
    """Stand-in for the network with junctions at its call site: any list of nodes (what they are is C11)."""
    quals = ('malstroem.algorithms.net.geometric_pourpoint_network',)
    params = ('flowdir', 'labeled_bluespots', 'pour_points', 'background_label')
    trusted = 'only the form of the nodes is assumed here: numbers, a cell, and a list of cells'

    def accepts(self, ex, st, a):
        return isinstance(ex.top.ctr, Process)

    def pre(self, ex, st, a, g):
        pts = net.Network.points(net.Network(), ex, st, a)
        if pts is None:
            raise Unsupported('pour points handed to the network')
        D, (H, W) = fn_of(st, a.flowdir), shape_of(st, a.flowdir)
        n, pid, r0, c0 = pts
        nb, b = some(a.background_label)
        return [('pour points are those read', z3.And(n == ex.top.ctr.n, forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(r0 == PR(i), c0 == PC(i), pid == i)), r0, PR(i)))),
                ('the background is label 0', z3.And(z3.Not(nb), iterm(b) == 0) if b is not None else z3.BoolVal(False)), ('rasters are those read', self.same(ex, st, a))]

    def same(self, ex, st, a):
        t = ex.top.ctr
        return z3.BoolVal(st.heap[a.flowdir.id].fn is st.heap[t.flow.id].fn and st.heap[a.labeled_bluespots.id].fn is st.heap[t.lab.id].fn)

    def result(self, ex, st, a, g):
        n = z3.Int('nnodes')
        st.assume(n >= 0)
        st.assume(forall([i], NG(i) >= 0, NG(i)))
        return ex.alloc(st, TreeC(SeqV(n, lambda i: DictV({'id': N(NID(i), 'int'), 'downstream_id': Opt(NDN(i), N(NDS(i), 'int')), 'nodetype': Uni([(NPP(i), 'pourpoint'), (z3.Not(NPP(i)), 'junction')]),
                                                         'pix': (N(NR(i), 'int'), N(NC(i), 'int')), 'geometry': SeqV(NG(i), lambda k: (N(GR(i, k), 'int'), N(GC(i, k), 'int')))}))))


class Process(Contract):
    """Every node becomes one point feature with its own numbers and those of its pour point, every node with a path one
    line feature through the cells of the path, in world coordinates."""
    quals = (Q + 'StreamTool.process',)
    params = ('self',)
    fp = 'real'
    variant = 'nodes'

    def setup(self, ex, st, fn):
        d = dims(st)
        num = lambda f, k='f8': (lambda i: N(f(i), k))
        self.list, self.n = features(ex, st, {'bspot_id': num(BID, 'int'), 'cell_row': num(PR, 'int'), 'cell_col': num(PC, 'int'), 'bspot_area': num(AREA), 'bspot_vol': num(VOL), 'wshed_area': num(WSHED)}, 'npourpoints')
        self.flow, self.lab = arr(ex, st, 'flowdir', 'u1', d), arr(ex, st, 'labels', 'i4', d)
        self.t = transform(st)
        self.w, self.ws = vector_writer(ex, st), vector_writer(ex, st) if self.variant == 'streams' else None
        return {'self': tool(ex, st, fn, input_pourpoints=vector_reader(ex, st, self.list), input_bluespots=raster_reader(ex, st, self.lab, self.t), input_flowdir=raster_reader(ex, st, self.flow, self.t),
                             output_nodes=self.w, output_streams=self.ws)}

    def accepts(self, ex, st, a):
        return False

    def ghost(self, ex, st, a):
        if ('streams', 0) not in st.ghost:
            st.ghost[('streams', 0)] = True
            for t in (HASG(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, HASG(k + 1) == HASG(k) + z3.If(NG(k) > 0, 1, 0)), patterns=[z3.MultiPattern(HASG(k), NG(k))])):
                st.assume(t)
        return net.downs(ex, st, self.flow, self.lab, 0)

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, self.flow)
        return [('direction codes', codes(g.D, g.H, g.W)),
                ('the pour points are those of the labels, in order', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(BID(i) == i, inside(PR(i), PC(i), H, W))), BID(i), PR(i), PC(i))),
                ('pour point of a label', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), POS(i) == i), POS(i))),
                ('ids of pour points are those of the labels, junctions have others', forall([i], NPP(i) == z3.And(NID(i) >= 0, NID(i) < self.n), NID(i), NPP(i)))]

    def modifies(self, ex, st, a, g):
        return [st.heap[w.id].attrs['written'] for w in (self.w, self.ws) if w is not None]

    def first(self, ex, st, a, g):
        return [Induct('lines before', [j, k], z3.And(j >= 0, j <= k), k, z3.And(HASG(j) >= 0, HASG(j) <= HASG(k)), [[HASG(j), HASG(k)]], using=[z3.Implies(k > 0, HASG(k) == HASG(k - 1) + z3.If(NG(k - 1) > 0, 1, 0)), HASG(0) == 0])]

    def on_dict(self, ex, st, m, last):
        q = z3.Int('q')
        return [('pour points by id', forall([q], z3.Implies(m.dom(q), z3.And(last(q) == q, q >= 0, q < self.n)), m.dom(q), last(q))),
                ('every pour point is listed', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), m.dom(BID(i))), m.dom(BID(i)), BID(i)))]

    def node(self, g):
        """what node i is: (number of nodes, id, no downstream id, downstream id, is a pour point, row, column)"""
        if self.ws is None:
            nx = g.next(PR(i), PC(i))
            return self.n, i, z3.Not(g.found(PR(i), PC(i))), nx, z3.BoolVal(True), PR(i), PC(i)
        return z3.Int('nnodes'), NID(i), NDN(i), NDS(i), NPP(i), NR(i), NC(i)

    def world(self, r0, c0):
        h = z3.Q(1, 2)
        return [f(*([v.t for v in self.t] + [z3.ToReal(c0) + h, z3.ToReal(r0) + h])) for f in WORLD]

    def elem(self, ex, st, v, i):
        s = ex.lib.as_seqv(ex, st.heap[v.id])
        e = s.at(i)
        return s.n, ex.lib.deref(ex, st, e, raw=True) if isinstance(e, PRef) else e

    def points(self, ex, st, g, v, n):
        """the first n point features are right"""
        try:
            m, e = self.elem(ex, st, v, i)
        except (Unsupported, AttributeError):
            return [('point features are a list', z3.BoolVal(False))]
        out = [('one feature for every node', iterm(m) == n)]
        if isinstance(e, Undef) or e is None:
            return out
        if not isinstance(e, DictV) or not isinstance(e.d.get('properties'), DictV) or not isinstance(e.d.get('geometry'), DictV):
            return out + [('nodes are features', n <= 0)]
        p, geo = e.d['properties'].d, e.d['geometry'].d
        _, nid, dn, ds, pp, r0, c0 = self.node(g)
        if e.d.get('type') != 'Feature' or geo.get('type') != 'Point' or {'nodeid', 'dstrnodeid', 'nodetype', 'cell_row', 'cell_col', 'bspot_id', 'bspot_area', 'bspot_vol', 'wshed_area'} - set(p):
            return out + [('nodes are point features with all attributes', n <= 0)]
        x = self.pair(ex, st, geo.get('coordinates'))
        if x is None:
            return out + [('points have two coordinates', n <= 0)]
        dom = z3.And(i >= 0, i < n)
        ps = [t for t in (nid, r0, PR(i), NID(i), iterm(p['nodeid'])) if uf(t)]
        fa = lambda t: forall([i], z3.Implies(dom, t), *ps)
        nn, dv = some(p['dstrnodeid'])
        bn, bv = some(p['bspot_id'])
        ty = p['nodetype']
        isp = z3.BoolVal(ty == 'pourpoint') if isinstance(ty, str) else z3.Or([w for w, v in ty.alts if v == 'pourpoint']) if isinstance(ty, Uni) else z3.BoolVal(False)
        own = lambda f: z3.If(pp, f(nid), 0)
        wx, wy = self.world(r0, c0)
        out += [('id', fa(z3.And(iterm(p['nodeid']) == nid, iterm(e.d['id']) == nid))),
                ('downstream id', fa(z3.And(nn == dn, z3.Implies(z3.Not(dn), (iterm(dv) == ds) if dv is not None else z3.BoolVal(False))))),
                ('cell', fa(z3.And(iterm(p['cell_row']) == r0, iterm(p['cell_col']) == c0))),
                ('node type', fa(isp == pp)),
                ('bluespot of a pour point, none for a junction', fa(z3.And(bn == z3.Not(pp), z3.Implies(pp, (iterm(bv) == nid) if bv is not None else z3.BoolVal(False))))),
                ('area of the bluespot', fa(rterm(p['bspot_area']) == own(AREA))), ('volume of the bluespot', fa(rterm(p['bspot_vol']) == own(VOL))), ('area of the watershed', fa(rterm(p['wshed_area']) == own(WSHED))),
                ('point at the centre of the cell', fa(z3.And(iterm(x[0]) == 2, rterm(x[1]) == wx, rterm(x[2]) == wy)))]
        return out

    def pair(self, ex, st, v):
        """(number of coordinates, first, second)"""
        if isinstance(v, SeqV):
            v, n = (v.at(z3.IntVal(0)), v.at(z3.IntVal(1))), v.n
        else:
            n = z3.IntVal(2)
        return (n, *v) if isinstance(v, tuple) and len(v) == 2 and all(is_num(x) for x in v) else None

    def lines(self, ex, st, v, n):
        """the line features of the first n nodes are right"""
        try:
            m, e = self.elem(ex, st, v, HASG(i))
        except (Unsupported, AttributeError):
            return [('line features are a list', z3.BoolVal(False))]
        out = [('one line for every node with a path', iterm(m) == HASG(n))]
        if isinstance(e, Undef) or e is None:
            return out
        if not isinstance(e, DictV) or not isinstance(e.d.get('properties'), DictV) or not isinstance(e.d.get('geometry'), DictV):
            return out + [('lines are features', HASG(n) <= 0)]
        p, geo = e.d['properties'].d, e.d['geometry'].d
        if e.d.get('type') != 'Feature' or geo.get('type') != 'LineString' or {'nodeid', 'dstrnodeid'} - set(p) or not isinstance(geo.get('coordinates'), SeqV):
            return out + [('lines are features with ids', HASG(n) <= 0)]
        co = geo['coordinates']
        x = self.pair(ex, st, co.at(k))
        if x is None:
            return out + [('points of a line have two coordinates', HASG(n) <= 0)]
        dom = z3.And(i >= 0, i < n, NG(i) > 0)
        nn, dv = some(p['dstrnodeid'])
        ps = [NG(i), NID(i)]
        fa = lambda t: forall([i], z3.Implies(dom, t), *ps)
        wx, wy = self.world(GR(i, k), GC(i, k))
        return out + [('id of the line', fa(z3.And(iterm(p['nodeid']) == NID(i), iterm(e.d['id']) == NID(i)))),
                      ('downstream id of the line', fa(z3.And(nn == NDN(i), z3.Implies(z3.Not(nn), (iterm(dv) == NDS(i)) if dv is not None else z3.BoolVal(False))))),
                      ('a point for every cell', fa(co.n == NG(i))),
                      ('points at the centres of the cells, in order', forall([i, k], z3.Implies(z3.And(dom, k >= 0, k < NG(i)), z3.And(iterm(x[0]) == 2, rterm(x[1]) == wx, rterm(x[2]) == wy)), GR(i, k), rterm(x[1])))]

    def post(self, ex, old, st, a, g, res):
        l = written(st, self.w)
        if l is None or len(l) != 1:
            return [('nodes are written once', z3.BoolVal(False))]
        out = self.points(ex, st, g, l[0], self.node(g)[0])
        if self.ws is not None:
            l = written(st, self.ws)
            if l is None or len(l) != 1:
                return out + [('lines are written once', z3.BoolVal(False))]
            out += self.lines(ex, st, l[0], z3.Int('nnodes'))
        return out

    def loops(self, ex, entry, a, g):
        def each(what):
            def inv(cc):
                out = []
                for h in sorted(cc.mod_heap):
                    if isinstance(cc.st.heap.get(h), (ListC, SeqC, TreeC)):
                        out += what(cc.st, Ref(h), cc.k)
                return out
            return inv
        return {(0,): LoopSpec(each(lambda st, v, k: self.points(ex, st, g, v, k))), (1,): LoopSpec(each(lambda st, v, k: self.lines(ex, st, v, k)))}


CONTRACTS = [Geometric(), Process()]
