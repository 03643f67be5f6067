"""Contracts of malstroem.network (C14): the water balance of the nodes of a forest."""
from .features import *
from vf.contract import lemma

Q = 'malstroem.network.'
R = z3.RealSort()
x, y, i, j, k, p = z3.Ints('x y i j k p')
FIELDS = {'nodeid': field('nodeid', 'int'), 'nodetype': nodetype, 'dstrnodeid': field('dstrnodeid', 'int', True), 'bspot_id': field('bspot_id', 'int', True),
          'bspot_vol': field('bspot_vol'), 'wshed_area': field('wshed_area'), 'inputv': field('inputv')}
ID, DS, DN = z3.Function('nodeid', I, I), z3.Function('dstrnodeid', I, I), z3.Function('dstrnodeid_none', I, B)
CAP, IN = z3.Function('bspot_vol', I, R), z3.Function('inputv', I, R)
NODE = z3.Function('isnode', I, B)          # is the id of a node
IDX = z3.Function('indexof', I, I)          # the node with an id
DEPTH = z3.Function('depth', I, I)          # steps to the root of the tree, by id
SPILL = z3.Function('spill', I, R)          # water leaving the node, by id
GOT = z3.Function('got', I, I, R)           # water from the first k nodes upstream
NUP = z3.Function('nupstream', I, I)        # nodes directly upstream, by id
UP = z3.Function('upstream', I, I, I)
CNT = z3.Function('nupstream_of', I, I, I)  # nodes directly upstream among the first k
RCNT = z3.Function('nroots_of', I, I)
SEEN = z3.Function('SEEN', I, B)            # mark


def down(x):
    return DS(IDX(x))


def isroot(x):
    return DN(IDX(x))


def total(x):
    return IN(IDX(x)) + GOT(x, NUP(x))


def stored(x):
    c = CAP(IDX(x))
    return z3.If(total(x) < c, total(x), c)


def balance():
    """the balance of the nodes: exists because the nodes form a forest (recursion over the depth)"""
    return [z3.ForAll([x], GOT(x, 0) == 0, patterns=[GOT(x, 0), NUP(x)]),
            z3.ForAll([x, k], z3.Implies(z3.And(k >= 0, k < NUP(x)), GOT(x, k + 1) == GOT(x, k) + SPILL(UP(x, k))), patterns=[z3.MultiPattern(GOT(x, k), UP(x, k))]),
            z3.ForAll([x], z3.Implies(NODE(x), SPILL(x) == z3.If(total(x) - CAP(IDX(x)) > 0, total(x) - CAP(IDX(x)), 0)), patterns=[SPILL(x)])]


def forest(n):
    """ids are unique, downstream ids are ids of nodes, and every chain of downstream nodes ends"""
    return [('ids are unique', forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(NODE(ID(i)), IDX(ID(i)) == i)), ID(i))),
            ('every id has a node', forall([x], z3.Implies(NODE(x), z3.And(IDX(x) >= 0, IDX(x) < n, ID(IDX(x)) == x)), NODE(x), IDX(x))),
            ('water flows to nodes of the network, and out of every tree', forall([x], z3.Implies(NODE(x), z3.And(DEPTH(x) >= 0, z3.Implies(z3.Not(isroot(x)), z3.And(NODE(down(x)), DEPTH(down(x)) < DEPTH(x))))), NODE(x)))]


class Event(Contract):
    """One rain event on a network that represents a forest: every node gets the balance of its water, whatever was
    calculated before."""
    quals = (Q + 'Network.rain_event',)
    params = ('self', 'volume_attribute')
    fp = 'real'
    top = 0         # the loop over the roots
    lengths = (NUP(x),)

    def setup(self, ex, st, fn):
        self.list, self.n = features(ex, st, FIELDS)
        idx = lambda x: PRef(self.list.id, (IDX(x), 'properties'))
        index = ex.alloc(st, MapC(lambda x: NODE(x), idx))
        up = ex.alloc(st, MapC(freshf('haskey', I, B), lambda x: SeqV(NUP(x), lambda k: N(UP(x, k), 'int')), 'list', none=(z3.Bool('hasnone'), SeqV(z3.Int('nroots2'), lambda k: N(freshf('roots2', I, I)(k), 'int')))))
        self.root, self.nroots, self.rpos, self.place = freshf('root', I, I), z3.Int('nroots'), freshf('rootpos', I, I), freshf('place', I, I)
        roots = ex.alloc(st, SeqC(self.nroots, lambda k: N(self.root(k), 'int')))
        pf, pb = freshf('earlier', I, R), freshf('earlierhas', I, B)
        self.earlier = lambda x: DictV({'nodeid': N(x, 'int'), 'inputv': N(pf(x), 'f8'), 'spillv': N(pf(x), 'f8'), 'v': N(pf(x), 'f8'), 'pctv': Opt(pb(x), N(pf(x), 'f8'))})
        before = ex.alloc(st, MapC(lambda x: pb(x), self.earlier))
        nodes = ex.alloc(st, SeqC(self.n, lambda k: PRef(self.list.id, (k, 'properties'))))
        self.net = tool(ex, st, fn)
        c = st.heap[self.net.id]
        st.heap[self.net.id] = ObjC(c.cls, dict(c.attrs, nodes=nodes, nodes_index=index, root_nodes=roots, upstream_tree=up, _node_rain_values=before))
        return {'self': self.net, 'volume_attribute': 'inputv'}

    def accepts(self, ex, st, a):
        return False

    def ghost(self, ex, st, a):
        for t in balance():
            st.assume(t)

    def pre(self, ex, st, a, g):
        return forest(self.n) + [('capacities are not negative', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(CAP(i) >= 0, IN(i) >= 0)), CAP(i), IN(i)))] + self.network()

    def network(self):
        return [('upstream nodes are those that flow to the node', forall([x, k], z3.Implies(z3.And(k >= 0, k < NUP(x)), z3.And(NODE(UP(x, k)), z3.Not(isroot(UP(x, k))), down(UP(x, k)) == x)), UP(x, k))),
                ('lengths', forall([x], NUP(x) >= 0, NUP(x))),
                ('every node that flows on is upstream of its downstream node', forall([x], z3.Implies(z3.And(NODE(x), z3.Not(isroot(x))), z3.And(self.place(x) >= 0, self.place(x) < NUP(down(x)), UP(down(x), self.place(x)) == x)), NODE(x))),
                ('roots', z3.And(self.nroots >= 0, forall([k], z3.Implies(z3.And(k >= 0, k < self.nroots), z3.And(NODE(self.root(k)), isroot(self.root(k)))), self.root(k)))),
                ('every root is listed', forall([x], z3.Implies(z3.And(NODE(x), isroot(x)), z3.And(self.rpos(x) >= 0, self.rpos(x) < self.nroots, self.root(self.rpos(x)) == x)), NODE(x)))]

    def modifies(self, ex, st, a, g):
        return [self.net, st.heap[self.net.id].attrs['upstream_tree']]

    def bind_network(self, ex, st):
        pass

    # the values calculated so far
    def values(self, ex, st):
        r = st.heap[self.net.id].attrs.get('_node_rain_values')
        c = st.heap.get(r.id) if isinstance(r, Ref) else None
        if not isinstance(c, (MapC, DictC)):
            return None
        return ex.lib.as_map(ex, c)

    def right(self, v, x):
        """v is the balance of node x"""
        if not isinstance(v, DictV):
            return z3.BoolVal(False)
        d = {k: ex_under(w) for k, w in v.d.items()}
        for k in ('nodeid', 'spillv', 'v', 'pctv'):
            if k not in d:
                return z3.BoolVal(False)
        has = z3.And([z3.Not(w.when) for k, w in v.d.items() if isinstance(w, PUndef) and k in ('nodeid', 'spillv', 'v', 'pctv')] or [z3.BoolVal(True)])
        nn, pc = some(d['pctv'])
        c = CAP(IDX(x))
        out = [has, iterm(d['nodeid']) == x, rterm(d['spillv']) == SPILL(x), rterm(d['v']) == stored(x), nn == (c == 0)]
        if pc is not None:
            out.append(z3.Implies(c != 0, rterm(pc) * c == 100 * stored(x)))
        return z3.And(out)

    def correct(self, m):
        v = ex_under(m.val(x))
        if isinstance(v, Undef):
            return [('values calculated are right', forall([x], z3.Not(m.dom(x))))]
        return [('values calculated are right', forall([x], z3.Implies(m.dom(x), z3.And(NODE(x), self.right(v, x))), m.dom(x), rterm(ex_under(v.d['spillv'])) if isinstance(v, DictV) and 'spillv' in v.d else x))]

    def closed(self, m):
        return [('with a node all nodes upstream are calculated', forall([x, k], z3.Implies(z3.And(m.dom(x), k >= 0, k < NUP(x)), m.dom(UP(x, k))), [m.dom(x), UP(x, k)]))]

    def lemmas(self, ex, old, st, a, g, res):
        m = self.values(ex, st)
        if m is None:
            return []
        return [Induct('every node is calculated', [x], NODE(x), DEPTH(x), m.dom(x), [NODE(x)])]

    def post(self, ex, old, st, a, g, res):
        c = st.heap.get(res.id) if isinstance(res, Ref) else None
        if not isinstance(c, (SeqC, ListC)):
            return [('the result is a list', z3.BoolVal(False))]
        s = ex.to_seq(c)
        n, key = s.n, None
        v = s.at(i)
        if isinstance(v, PRef):
            v = ex.lib.deref(ex, st, v, raw=True)
        if not isinstance(v, DictV) or 'nodeid' not in v.d:
            return [('the result lists the values of nodes', n == 0)]
        nid = iterm(ex_under(v.d['nodeid']))
        w = s.at(j)
        w = ex.lib.deref(ex, st, w, raw=True) if isinstance(w, PRef) else w
        nid2 = iterm(ex_under(w.d['nodeid']))
        dom = z3.And(i >= 0, i < n)
        out = [('every entry is the balance of a node', forall([i], z3.Implies(dom, z3.And(NODE(nid), self.right(v, nid))), nid)),
               ('no node has two entries', forall([i, j], z3.Implies(z3.And(dom, j >= 0, j < n, nid == nid2), i == j), [nid, nid2]))]
        return out + self.all_listed(ex, st, n, nid)

    def all_listed(self, ex, st, n, nid):
        m = self.values(ex, st)
        enum = m.enum if m is not None else None
        pos = enum[2](x) if enum else fresh('pos', I)
        at = z3.substitute(nid, (i, pos))
        if enum is None:
            return [('every node has an entry', forall([x], z3.Implies(NODE(x), z3.Exists([i], z3.And(i >= 0, i < n, nid == x))), NODE(x)))]
        return [('every node has an entry', forall([x], z3.Implies(NODE(x), z3.And(pos >= 0, pos < n, at == x)), NODE(x)))]

    def on_sum(self, ex, st, S, n, item):
        """the sum over the upstream nodes of a node is what it gets"""
        u = self.node_of(n)
        if u is None:
            return []
        return [Induct('the sum of the spill upstream', [k], z3.And(k >= 0, k <= n), k, S(k) == GOT(u, k), [S(k)],
                       using=[z3.Implies(k > 0, z3.And(S(k) == S(k - 1) + item(k - 1), GOT(u, k) == GOT(u, k - 1) + SPILL(UP(u, k - 1))))])]

    def node_of(self, n):
        """the node whose number of upstream nodes is n"""
        todo, seen = [n], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.sort() == I and any(z3.simplify(z3.substitute(w, (x, t))).eq(z3.simplify(n)) for w in self.lengths):
                return t
            todo += t.children()
        return None

    def loops(self, ex, entry, a, g):
        def roots(cc):
            m = self.values(ex, cc.st)
            if m is None:
                return [('values are kept in a dict', z3.BoolVal(False))]
            return self.correct(m) + self.closed(m) + [('trees done', forall([k], z3.Implies(z3.And(k >= 0, k < cc.k), m.dom(self.root(k))), self.root(k)))]

        def repr(ex, st, fr):
            out = {}
            for nm, v in st.envs[fr.fid].items():
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListC) and st.heap[v.id].items:
                    b = ex.lib.bagify(ex, st.heap[v.id])
                    if b is not None:
                        out[v.id] = b
            return out

        def lists(cc, kinds, st=None):
            return [(h, (st or cc.st).heap[h]) for h in sorted(cc.mod_heap) if isinstance(cc.st.heap.get(h), kinds)]

        def view(cc, c):
            s = ex.to_seq(c)
            return s.n, (lambda p: iterm(s.at(p)))

        def search(cc):
            """the nodes above the root: found so far (in order) or listed to be looked at"""
            bags, trees = lists(cc, BagC), lists(cc, (ListC, SeqC))
            if len(bags) != 1 or len(trees) != 1:
                return []
            b, (n, at) = bags[0][1], view(cc, trees[0][1])
            root = self.root(cc.up().k)
            empty = z3.is_int_value(n) and n.as_long() == 0
            found = lambda y, lo: z3.BoolVal(False) if empty else z3.Exists([p], z3.And(p > lo, p < n, at(p) == y))
            out = [('listed means not empty', forall([x], z3.Implies(b.mem(x), b.nonempty), b.mem(x))),
                   ('listed are nodes', forall([x], z3.Implies(b.mem(x), NODE(x)), b.mem(x))),
                   ('number found', n >= 0),
                   ('the root is found or listed', z3.Or(b.mem(root), found(root, z3.IntVal(-1))))]
            if not empty:
                out += [('found are nodes', forall([p], z3.Implies(z3.And(p >= 0, p < n), NODE(at(p))), at(p))),
                        ('nodes above a found one are listed or found later', forall([p, k], z3.Implies(z3.And(p >= 0, p < n, k >= 0, k < NUP(at(p))),
                            z3.Or(b.mem(UP(at(p), k)), z3.Exists([j], z3.And(j > p, j < n, at(j) == UP(at(p), k))))), [at(p), UP(at(p), k)]))]
            return out

        def calc(cc):
            """the nodes found are calculated from the last to the first"""
            trees = lists(cc, (ListC, SeqC))
            m, m0 = self.values(ex, cc.st), self.values(ex, cc.entry)
            if m is None or m0 is None:
                return []
            if not trees and cc.n is not None:
                # the list itself stays as it is: its nodes from the last to the first, or as the loop before left it
                n0 = cc.n
                own = [v for nm, v in cc.st.envs[cc.fr.fid].items() if isinstance(v, Ref) and isinstance(cc.st.heap.get(v.id), SeqC)
                       and z3.simplify(cc.st.heap[v.id].n == n0).eq(z3.BoolVal(True))]
                if len(own) != 1:
                    return []
                _, at0 = view(cc, cc.st.heap[own[0].id])
                return self.correct(m) + self.closed(m) + [
                    ('nodes done', forall([p], z3.Implies(z3.And(p >= n0 - cc.k, p < n0), m.dom(at0(p))), at0(p))),
                    ('nothing is lost', forall([x], z3.Implies(m0.dom(x), m.dom(x)), m.dom(x), m0.dom(x)))]
            if len(trees) != 1:
                return []
            h = trees[0][0]
            n, at = view(cc, trees[0][1])
            n0, at0 = view(cc, cc.entry.heap[h])
            return self.correct(m) + self.closed(m) + [
                ('still to do', z3.And(n >= 0, n <= n0)), ('order of the rest', forall([p], z3.Implies(z3.And(p >= 0, p < n), at(p) == at0(p)), at(p), at0(p))),
                ('nodes done', forall([p], z3.Implies(z3.And(p >= n, p < n0), m.dom(at0(p))), at0(p))),
                ('nothing is lost', forall([x], z3.Implies(m0.dom(x), m.dom(x)), m.dom(x), m0.dom(x)))]
        def as_maps(ex, st, fr):
            """the empty dict that the values will be put in"""
            self.bind_network(ex, st)
            r = st.heap[self.net.id].attrs.get('_node_rain_values')
            c = st.heap.get(r.id) if isinstance(r, Ref) else None
            return {r.id: MapC(lambda x: z3.BoolVal(False), self.earlier)} if isinstance(c, DictC) and not c.d else {}
        t = self.top
        return {(t,): LoopSpec(roots, repr=as_maps), (t, 0): LoopSpec(search, repr=repr), (t, 1): LoopSpec(calc)}


class Final(Event):
    """The final state of a network: every feature read is written once with the balance of its node."""
    quals = (Q + 'FinalStateCalculator.process',)
    params = ('self',)
    top = 1

    def setup(self, ex, st, fn):
        self.list, self.n = features(ex, st, FIELDS)
        self.w = vector_writer(ex, st)
        self.net = None
        num = z3.Function('number', I, R)
        self.earlier = lambda x: DictV({'nodeid': N(x, 'int'), 'inputv': N(num(x), 'f8'), 'spillv': N(num(x), 'f8'), 'v': N(num(x), 'f8'), 'pctv': Opt(num(x) == 0, N(num(x), 'f8'))})
        return {'self': tool(ex, st, fn, input_nodes=vector_reader(ex, st, self.list), input_volume_attribute='inputv', output_finalstatedata=self.w)}

    def ghost(self, ex, st, a):
        return None

    def pre(self, ex, st, a, g):
        return forest(self.n) + [('capacities are not negative', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(CAP(i) >= 0, IN(i) >= 0)), CAP(i), IN(i)))]

    def modifies(self, ex, st, a, g):
        return [st.heap[self.w.id].attrs['written'], self.list]

    def network_of(self, st):
        """the object that holds the tree"""
        got = [h for h, c in st.heap.items() if isinstance(c, ObjC) and 'upstream_tree' in c.attrs]
        return Ref(got[0]) if len(got) == 1 else None

    def parts(self, ex, st, net):
        at = lambda nm: st.heap[st.heap[net.id].attrs[nm].id]
        up, roots = at('upstream_tree'), ex.to_seq(at('root_nodes'))
        return ex.lib.as_map(ex, at('nodes_index')), ex.lib.as_map(ex, up), roots, ex.to_seq(at('nodes'))

    def bind_network(self, ex, st):
        net = self.network_of(st)
        if net is None:
            raise Unsupported('the network is not in one object')
        self.net = net
        idx, up, roots, nodes = self.parts(ex, st, net)
        if ('water', net.id) in st.ghost:
            return
        st.ghost[('water', net.id)] = st.heap[net.id]
        self.root, self.nroots = (lambda k: iterm(roots.at(k))), iterm(roots.n)
        u = ex_under(up.val(x))
        if not isinstance(u, SeqV):
            raise Unsupported('representation of the tree')
        n = iterm(u.n) if up.factory else z3.If(up.dom(x), iterm(u.n), 0)
        self.lengths = (n, iterm(u.n))
        ex.need(st, 'network: number upstream', forall([x], n == NUP(x), NUP(x), u.n))
        ex.need(st, 'network: nodes upstream', forall([x, k], z3.Implies(z3.And(k >= 0, k < n), iterm(u.at(k)) == UP(x, k)), iterm(u.at(k)), UP(x, k)))
        self.rpos = lambda y: RCNT(self.pos(y))
        for nm, t in self.network():
            ex.need(st, 'network: ' + nm, t)
        for t in balance():
            st.assume(t)

    def order(self, ex, st):
        """ghost: the order in which nodes are added, and what is upstream of a node after k of them"""
        if ('order', 0) in st.ghost:
            return
        enums = [c.enum for t, c in st.ghost.items() if isinstance(t, tuple) and t[0] == 'enum']
        self.m, self.ord, self.pos = enums[0] if len(enums) == 1 else (self.n, ID, IDX)
        st.ghost[('order', 0)] = True
        o = self.ord(p)
        step = z3.And(z3.Not(isroot(o)), down(o) == x)
        for t in [z3.ForAll([x], CNT(x, 0) == 0, patterns=[CNT(x, 0), NUP(x)]),
                  z3.ForAll([x, p], z3.Implies(z3.And(p >= 0, p < self.m), CNT(x, p + 1) == CNT(x, p) + z3.If(step, 1, 0)), patterns=[CNT(x, p + 1), z3.MultiPattern(CNT(x, p), o)]),
                  z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < self.m, z3.Not(isroot(o))), UP(down(o), CNT(down(o), p)) == o), patterns=[o]),
                  z3.ForAll([x], NUP(x) == CNT(x, self.m), patterns=[NUP(x)]), RCNT(0) == 0,
                  z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < self.m), RCNT(p + 1) == RCNT(p) + z3.If(isroot(o), 1, 0)), patterns=[RCNT(p + 1), z3.MultiPattern(RCNT(p), o)])]:
            st.assume(t)
        lemma(ex, st, Induct('numbers of roots grow', [j, k], z3.And(j >= 0, j <= k, k <= self.m), k, z3.And(RCNT(j) >= 0, RCNT(j) <= RCNT(k)), [[RCNT(j), RCNT(k)]],
                             using=[RCNT(0) == 0, z3.Implies(z3.And(k - 1 >= 0, k - 1 < self.m), RCNT(k) == RCNT(k - 1) + z3.If(isroot(self.ord(k - 1)), 1, 0))]))
        lemma(ex, st, Induct('counts grow', [x, j, k], z3.And(j >= 0, j <= k, k <= self.m), k, z3.And(CNT(x, j) >= 0, CNT(x, j) <= CNT(x, k)), [[CNT(x, j), CNT(x, k)]],
                             using=[CNT(x, 0) == 0, z3.Implies(z3.And(k - 1 >= 0, k - 1 < self.m), CNT(x, k) == CNT(x, k - 1) + z3.If(z3.substitute(step, (p, k - 1)), 1, 0))]))

    def nroot(self, m):
        return RCNT(m)

    def rplace(self, p):
        return RCNT(p)

    def place(self, y):
        return CNT(down(y), self.pos(y))

    def added(self, ex, st, m):
        """the network after m nodes"""
        net = self.network_of(st)
        if net is None:
            return [('the network is in one object', z3.BoolVal(False))]
        idx, up, roots, nodes = self.parts(ex, st, net)
        o = self.ord(p)
        dom = z3.And(p >= 0, p < m)
        out = []
        v = ex_under(idx.val(x))
        if isinstance(v, PRef) and v.id == self.list.id and len(v.path) == 2 and v.path[1] == 'properties':
            out.append(('nodes by id', forall([x], z3.Implies(idx.dom(x), z3.And(NODE(x), v.path[0] == IDX(x))), idx.dom(x), v.path[0])))
        else:
            out.append(('no nodes yet', forall([x], z3.Not(idx.dom(x)))))
        out.append(('nodes added have an entry', forall([p], z3.Implies(dom, idx.dom(o)), o)))
        u = ex_under(up.val(x))
        if isinstance(u, SeqV):
            n = iterm(u.n)
            e = u.at(k)
            n = n if up.factory else z3.If(up.dom(x), n, 0)
            out.append(('number upstream', forall([x], z3.And(n == CNT(x, m), n >= 0), u.n, CNT(x, m))))
            if is_num(e):
                e = iterm(e)
                out.append(('listed upstream', forall([x, k], z3.Implies(z3.And(k >= 0, k < n), z3.And(e == UP(x, k), NODE(e), z3.Not(isroot(e)), down(e) == x)), e, UP(x, k))))
        else:
            out.append(('nothing upstream yet', forall([x], z3.And(z3.Not(up.dom(x)), CNT(x, m) == 0))))
        rn = iterm(roots.n)
        if z3.is_int_value(rn) and rn.as_long() == 0:
            out.append(('no root yet', forall([p], z3.Implies(dom, z3.Not(isroot(o))), o)))
        else:
            e = iterm(roots.at(k))
            out.append(('roots', z3.And(rn == self.nroot(m), rn >= 0, forall([k], z3.Implies(z3.And(k >= 0, k < rn), z3.And(NODE(e), isroot(e))), e))))
            out.append(('every root is listed', forall([p], z3.Implies(z3.And(dom, isroot(o)), z3.And(self.rplace(p) >= 0, self.rplace(p) < rn, z3.substitute(e, (k, self.rplace(p))) == o)), o)))
        return out

    def loops(self, ex, entry, a, g):
        def add(cc):
            return self.added(ex, cc.st, cc.k) + [('number of nodes', cc.n == self.m)]

        def order(ex, st, fr):
            self.order(ex, st)
            return {}
        def back(cc):
            m = self.values(ex, cc.st) if self.net is not None else None
            if m is None or m.enum is None:
                return []
            return self.result_of(ex, entry, cc.st, lambda i: m.enum[2](ID(i)) < cc.k, [m.enum[2](ID(i))])
        out = Event.loops(self, ex, entry, a, g)
        out[(0,)] = LoopSpec(add, repr=order)

        def calculated(ex, st, fr):
            if self.net is not None and self.values(ex, st) is not None:
                for lm in Event.lemmas(self, ex, None, st, None, None, None):
                    lemma(ex, st, lm)
            return {}
        out[(2,)] = LoopSpec(back, repr=calculated)
        return out

    def result_of(self, ex, old, st, done, pats=()):
        """the features for which done holds have the balance of their node, and nothing else changes"""
        v = st.heap[self.list.id].v.at(i).d['properties']
        dom = z3.And(i >= 0, i < self.n)
        pats = [ID(i)] + list(pats)
        for w in v.d.values():
            if isinstance(w, PUndef) and uf(w.when):
                pats.append(w.when)
            w = some(ex_under(w))[1] if isinstance(ex_under(w), Opt) else ex_under(w)
            if is_num(w) and uf(term(w)):
                pats.append(term(w))
        pats = list({t.get_id(): t for t in pats}.values())
        return [('balance of every node', forall([i], z3.Implies(z3.And(dom, done(i)), self.right(v, ID(i))), *pats)),
                ('nothing else changes', forall([i], z3.Implies(dom, unchanged(ex, old, st, self.list, i, ('v', 'spillv', 'pctv'))), *pats))]

    def lemmas(self, ex, old, st, a, g, res):
        return []

    def post(self, ex, old, st, a, g, res):
        l = written(st, self.w)
        if l is None or len(l) != 1:
            return [('features are written once', z3.BoolVal(False))]
        s = ex.to_seq(st.heap[l[0].id])
        v, w = s.at(j), s.at(k)
        if not (isinstance(v, PRef) and v.id == self.list.id and len(v.path) == 1):
            return [('what is written are the features read', s.n == 0)]
        e, f = v.path[0], w.path[0]
        dom = lambda j: z3.And(j >= 0, j < s.n)
        return [('what is written are features read', forall([j], z3.Implies(dom(j), z3.And(e >= 0, e < self.n)), e)),
                ('no feature is written twice', forall([j, k], z3.Implies(z3.And(dom(j), dom(k), e == f), j == k))),
                ('every feature is written', forall([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(dom(self.pos(ID(i))), z3.substitute(e, (j, self.pos(ID(i)))) == i)), ID(i)))] + self.result_of(ex, old, st, lambda i: z3.BoolVal(True))


class Conserve(Contract):
    """Lemma over the balance: the water kept in the nodes and the water leaving the roots is the water that came in."""
    fp = 'real'

    def prove(self, ex):
        st = State()
        m = z3.Int('nnodes')
        o, pos = freshf('ord', I, I), freshf('ordpos', I, I)
        q = z3.Int('q')
        G, S = freshf('got_by', I, I, R), freshf('flows_on', I, R)
        TI, TS, TR = freshf('water_in', I, R), freshf('water_kept', I, R), freshf('water_out', I, R)
        x0 = lambda t, y: z3.substitute(t, (x, y))
        st.assume(m >= 0)
        for nm, t in forest(m):
            if nm.startswith('water flows'):
                st.assume(t)
        for t in balance():
            st.assume(t)
        st.assume(forall([p], z3.Implies(z3.And(p >= 0, p < m), z3.And(NODE(o(p)), pos(o(p)) == p)), o(p)))
        st.assume(forall([x], z3.Implies(NODE(x), z3.And(pos(x) >= 0, pos(x) < m, o(pos(x)) == x)), NODE(x), pos(x)))
        on = lambda q: z3.Not(isroot(o(q)))
        st.assume(forall([x], z3.And(CNT(x, 0) == 0, NUP(x) == CNT(x, m)), NUP(x)))
        cnt = lambda y, q: z3.Implies(z3.And(q >= 0, q < m), CNT(y, q + 1) == CNT(y, q) + z3.If(z3.And(on(q), down(o(q)) == y), 1, 0))
        up = lambda q: z3.Implies(z3.And(q >= 0, q < m, on(q)), UP(down(o(q)), CNT(down(o(q)), q)) == o(q))
        grow = z3.And(CNT(x, j) >= 0, CNT(x, j) <= CNT(x, k))
        lemma(ex, st, Induct('counts grow', [x, j, k], z3.And(j >= 0, j <= k, k <= m), k, grow, [[CNT(x, j), CNT(x, k)]], using=[CNT(x, 0) == 0, cnt(x, k - 1), cnt(x, j - 1)]))
        gdef = lambda q, p: z3.And(G(q, 0) == 0, z3.Implies(p >= 0, G(q, p + 1) == G(q, p) + GOT(o(p), CNT(o(p), q))))
        sdef = lambda q: z3.And(S(0) == 0, z3.Implies(q >= 0, S(q + 1) == S(q) + z3.If(on(q), SPILL(o(q)), 0)))
        lemma(ex, st, Induct('nothing is got at first', [p], z3.And(p >= 0, p <= m), p, G(0, p) == 0, [G(0, p)], using=[gdef(0, p - 1), CNT(o(p - 1), 0) == 0, GOT(o(p - 1), 0) == 0]))
        y = o(p - 1)
        got = z3.Implies(z3.And(CNT(y, q) >= 0, CNT(y, q) < NUP(y)), GOT(y, CNT(y, q) + 1) == GOT(y, CNT(y, q)) + SPILL(UP(y, CNT(y, q))))
        lemma(ex, st, Induct('one more node gives its spill to the node below', [q, p], z3.And(q >= 0, q < m, p >= 0, p <= m), p,
              G(q + 1, p) == G(q, p) + z3.If(z3.And(on(q), pos(down(o(q))) < p), SPILL(o(q)), 0), [[G(q + 1, p), o(q)]],
              using=[gdef(q, p - 1), gdef(q + 1, p - 1), cnt(y, q), up(q), got]))
        lemma(ex, st, Induct('what flows on is got', [q], z3.And(q >= 0, q <= m), q, G(q, m) == S(q), [G(q, m)], using=[sdef(q - 1), G(0, m) == G(0, m), o(q - 1) == o(q - 1)]))
        tdef = lambda p: z3.And(TI(0) == 0, TS(0) == 0, TR(0) == 0, z3.Implies(p >= 0, z3.And(TI(p + 1) == TI(p) + IN(IDX(o(p))), TS(p + 1) == TS(p) + stored(o(p)),
                                                                                 TR(p + 1) == TR(p) + z3.If(on(p), 0, SPILL(o(p))))))
        lemma(ex, st, Induct('balance of the first nodes', [p], z3.And(p >= 0, p <= m), p, TS(p) + TR(p) + S(p) == TI(p) + G(m, p), [G(m, p)], using=[tdef(p - 1), sdef(p - 1), gdef(m, p - 1)]))
        ex.need(st, 'water is conserved', TS(m) + TR(m) == TI(m))


def ex_under(v):
    return v.v if isinstance(v, PUndef) else v


CONTRACTS = [Event(), Final(), Conserve()]
