"""Value domain of the symbolic executor."""
import z3
from fractions import Fraction
import struct

U = z3.DeclareSort('U')                 # opaque Python objects
INF = z3.Real('INF')                    # float infinity: above every finite float (axiom per contract)

INTK = {'int', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8'}
FLTK = {'float', 'f4', 'f8'}
RANGE = {'i1': (-2**7, 2**7-1), 'i2': (-2**15, 2**15-1), 'i4': (-2**31, 2**31-1), 'i8': (-2**63, 2**63-1),
         'u1': (0, 2**8-1), 'u2': (0, 2**16-1), 'u4': (0, 2**32-1), 'u8': (0, 2**64-1)}
# rounding to storage / after an operation; monotone, see axioms in fpaxioms()
R4 = z3.Function('round_f4', z3.RealSort(), z3.RealSort())
R8 = z3.Function('round_f8', z3.RealSort(), z3.RealSort())


class Unsupported(Exception):
    pass


class N(object):
    """symbolic number or truth value: z3 term + kind"""
    __slots__ = ('t', 'k')

    def __init__(self, t, k):
        self.t = t
        self.k = k

    def __repr__(self):
        return 'N(%s:%s)' % (self.t, self.k)


class Opt(object):
    __slots__ = ('isnone', 'v')

    def __init__(self, isnone, v):
        self.isnone = isnone
        self.v = v

    def __repr__(self):
        return 'Opt(%s,%r)' % (self.isnone, self.v)


class Uni(object):
    """value that differs in kind between branches: [(guard, value)]"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Undef(object):
    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class PUndef(object):
    """defined unless `when`"""
    __slots__ = ('when', 'v')

    def __init__(self, when, v):
        self.when = when
        self.v = v


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%d)' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class Op(object):
    """opaque object denoted by a term of sort U"""
    __slots__ = ('t', 'tag')

    def __init__(self, t, tag=None):
        self.t = t
        self.tag = tag

    def __repr__(self):
        return 'Op(%s)' % self.t


class StructV(object):
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return StructV(self.name, d)


class RecView(object):
    """numpy void view: record idx of a structured array"""
    __slots__ = ('ref', 'idx')

    def __init__(self, ref, idx):
        self.ref = ref
        self.idx = idx


class FieldView(object):
    """arr[...]['field'] of a structured array"""
    __slots__ = ('ref', 'field')

    def __init__(self, ref, field):
        self.ref = ref
        self.field = field


class ArrView(object):
    """basic-slice view of an array: index map"""
    __slots__ = ('ref', 'shape', 'imap')

    def __init__(self, ref, shape, imap):
        self.ref = ref
        self.shape = shape
        self.imap = imap


class DT(object):
    """numpy dtype / scalar type"""
    __slots__ = ('k', 'fields')

    def __init__(self, k, fields=None):
        self.k = k
        self.fields = fields

    def __repr__(self):
        return 'DT(%s)' % self.k

    def __eq__(self, o):
        return isinstance(o, DT) and o.k == self.k and o.fields == self.fields

    def __hash__(self):
        return hash(self.k)


class Fn(object):
    __slots__ = ('node', 'mod', 'qual', 'env', 'lang', 'defaults', 'self_')

    def __init__(self, node, mod, qual, env=None, lang='py', self_=None):
        self.node, self.mod, self.qual, self.env, self.lang, self.self_ = node, mod, qual, env, lang, self_

    def __repr__(self):
        return 'Fn(%s)' % self.qual


class BI(object):
    """builtin / library function: f(ex, st, args, kwargs) -> value"""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return 'BI(%s)' % self.name


class Cls(object):
    __slots__ = ('node', 'mod', 'qual', 'methods', 'consts')

    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual
        self.methods = {}
        self.consts = {}


class NTCls(object):
    """collections.namedtuple class"""
    __slots__ = ('name', 'fields')

    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class NT(object):
    __slots__ = ('cls', 'vals')

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, vals


class EnumMember(object):
    __slots__ = ('cls', 'name')

    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def __eq__(self, o):
        return isinstance(o, EnumMember) and (o.cls, o.name) == (self.cls, self.name)

    def __hash__(self):
        return hash((self.cls, self.name))


class SymEnum(object):
    """symbolic enum member: tag term Int over list of names"""
    __slots__ = ('cls', 'names', 't')

    def __init__(self, cls, names, t):
        self.cls, self.names, self.t = cls, names, t


class Null(object):
    """object all of whose methods do nothing (loggers)"""


class ModV(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ModV(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(('ModV', self.name))


def conc(k):
    """usable as a concrete dictionary key"""
    return isinstance(k, (str, int, EnumMember, DT, ModV)) or isinstance(k, tuple) and all(conc(x) for x in k)


class SliceV(object):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(object):
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class IterV(object):
    """lazy iterable over an index: n items, item(ex, st, k)"""
    __slots__ = ('n', 'item')

    def __init__(self, n, item):
        self.n, self.item = n, item


class FiltV(object):
    """lazy filtered iterable: base length n; for base index k: pred(ex,st,k)->z3 Bool, item"""
    __slots__ = ('n', 'pred', 'item')

    def __init__(self, n, pred, item):
        self.n, self.pred, self.item = n, pred, item


class GenV(object):
    """suspended call of a user generator"""
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class ShapeTag(object):
    pass


# ------------------------------------------------------------------ heap contents
class ListC(object):
    """list / deque of concrete positions; items = tuple of (guard or None, value)"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class SeqC(object):
    """list of symbolic length"""
    __slots__ = ('n', 'at')

    def __init__(self, n, at):
        self.n, self.at = n, at


class BagC(object):
    """list/deque used as work list, order abstracted away: the members of base and the items (guard or None, components)"""
    __slots__ = ('base_nonempty', 'base', 'sample', 'items')

    def __init__(self, nonempty, mem, sample, items=()):
        self.base_nonempty, self.base, self.sample, self.items = nonempty, mem, sample, tuple(items)

    @property
    def nonempty(self):
        return z3.Or([self.base_nonempty] + [z3.BoolVal(True) if g is None else g for g, _ in self.items])

    def mem(self, *x):
        return z3.Or([self.base(*x)] + [z3.And([p == q for p, q in zip(x, ts)] + ([] if g is None else [g])) for g, ts in self.items])

    def plus(self, g, ts):
        return BagC(self.base_nonempty, self.base, self.sample, self.items + ((g, tuple(ts)),))


class DictC(object):
    """dict with concrete keys: key -> (guard or None, value)"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)


class MapC(object):
    """dict with symbolic keys"""
    __slots__ = ('dom', 'val', 'factory', 'tag', 'enum', 'none')

    def __init__(self, dom, val, factory=None, tag=None, enum=None, none=None):
        self.dom, self.val, self.factory, self.tag, self.enum = dom, val, factory, tag, enum
        self.none = none or (z3.BoolVal(False), UNDEF)      # (is None a key, value of the key None)


class KeyS(object):
    """step of a path: a key that may be None"""
    __slots__ = ('isnone', 't')

    def __init__(self, isnone, t):
        self.isnone, self.t = isnone, t

    def eq(self, o):
        return isinstance(o, KeyS) and self.isnone.eq(o.isnone) and self.t.eq(o.t)


class LinkC(object):
    """heap content of an object that has been put into a list or dict of trees: the place it is at now"""
    __slots__ = ('to',)

    def __init__(self, to):
        self.to = to


class ArrC(object):
    __slots__ = ('dt', 'shape', 'fn', 'tag')

    def __init__(self, dt, shape, fn, tag=None):
        self.dt, self.shape, self.fn, self.tag = dt, tuple(shape), fn, tag


class ObjC(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


# ------------------------------------------------------------------ helpers on numbers
def is_num(v):
    return isinstance(v, (N, int, float, bool))


def kind(v):
    if isinstance(v, N):
        return v.k
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    raise Unsupported('number expected, got %r' % (v,))


def term(v):
    if isinstance(v, N):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v == float('inf'):
            return INF
        if v == float('-inf'):
            return -INF
        if v != v:
            raise Unsupported('NaN')
        f = Fraction(v)
        return z3.RealVal(f)
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, Op):
        return v.t
    raise Unsupported('no term for %r' % (v,))


def b2i(t):
    return z3.If(t, z3.IntVal(1), z3.IntVal(0))


def iterm(v):
    """as Int term"""
    t = term(v)
    if z3.is_bool(t):
        return b2i(t)
    if t.sort() == z3.RealSort():
        raise Unsupported('float used as integer')
    return t


def rterm(v):
    t = term(v)
    if z3.is_bool(t):
        t = b2i(t)
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def simp(t):
    return z3.simplify(t)


def boolval(t):
    """True/False/None for a z3 Bool or python bool"""
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


def mk(t, k):
    """wrap; fold integer/bool numerals"""
    if k == 'bool':
        b = boolval(t)
        return b if b is not None else N(t, 'bool')
    if k in INTK:
        if z3.is_int_value(t):
            return t.as_long()
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        return N(t, k)
    return N(t, k)


def AND(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return z3.BoolVal(False)
        ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def OR(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return z3.BoolVal(True)
        ys.append(x)
    if not ys:
        return z3.BoolVal(False)
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def NOT(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def toB(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def f4const(x):
    return struct.unpack('f', struct.pack('f', x))[0]


class DictV(object):
    """immutable dict value inside a value tree (JSON-like data)"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)


class SeqV(object):
    """immutable sequence value inside a value tree"""
    __slots__ = ('n', 'at')

    def __init__(self, n, at):
        self.n, self.at = n, at


# value at x of the line through (x0, y0) and (x1, y1): LINT(x, x0, x1, y0, y1)
LINT = z3.Function('on_line', *([z3.RealSort()] * 6))


# world coordinates gdal.ApplyGeoTransform gives: of the six coefficients, x and y
WORLD = [z3.Function('world_' + q, *([z3.RealSort()] * 9)) for q in 'xy']


class StrOf(object):
    """the text of a number, as str() writes it"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Joined(object):
    """texts joined by a separator that is in none of them"""
    __slots__ = ('sep', 's')

    def __init__(self, sep, s):
        self.sep, self.s = sep, s


class PRef(object):
    """reference to a place inside a heap-allocated value tree"""
    __slots__ = ('id', 'path')

    def __init__(self, id, path):
        self.id, self.path = id, tuple(path)


class TreeC(object):
    """heap content: one value tree"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class FamC(object):
    """heap content: family of lists indexed by integer: length len(i), elements at(i,k)"""
    __slots__ = ('n', 'ln', 'at')

    def __init__(self, n, ln, at):
        self.n, self.ln, self.at = n, ln, at


class BadV(object):
    """global whose definition could not be evaluated"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


ADJ = z3.Function('pair', *([z3.IntSort()] * 4 + [z3.BoolSort()]))      # always true: marks pairs of cells that facts about neighbours are wanted for


class Components(object):
    """ghost: numbering L of connected components 1..n, a root cell of each, and a tree of neighbours towards the root"""

    def __init__(self, L, n, H, W):
        I = z3.IntSort()
        self.L, self.n, self.H, self.W = L, n, H, W
        from .core import freshf
        self.rr, self.rc = freshf('root_row', I, I), freshf('root_col', I, I)
        self.pr, self.pc = freshf('parent_row', I, I, I), freshf('parent_col', I, I, I)
        self.rk = freshf('distance', I, I, I)

    def inside(self, r, c):
        return z3.And(r >= 0, r < self.H, c >= 0, c < self.W)

    def root(self, r, c):
        l = self.L(r, c)
        return z3.And(self.rr(l) == r, self.rc(l) == c)

    def parent(self, r, c, offs):
        """the facts about the parent of a cell with a number"""
        p, q = self.pr(r, c), self.pc(r, c)
        return z3.Implies(z3.And(self.inside(r, c), self.L(r, c) != 0, z3.Not(self.root(r, c))),
                          z3.And(self.inside(p, q), z3.Or([z3.And(p == r + a, q == c + b) for a, b in offs]), self.L(p, q) == self.L(r, c), self.rk(p, q) < self.rk(r, c)))

    def facts(self, mask, offs):
        r, c, r2, c2, l = z3.Ints('r c r2 c2 l')
        L = self.L
        on = lambda r, c: z3.And(self.inside(r, c), mask(r, c))
        return [('marks hold', z3.ForAll([r, c, r2, c2], ADJ(r, c, r2, c2), patterns=[ADJ(r, c, r2, c2)])),
                ('number of components', z3.And(self.n >= 0, self.n < 2 ** 31 - 2)),
                ('numbers from 1 up for the cells that are not zero, 0 for the others', z3.ForAll([r, c], z3.Implies(self.inside(r, c), z3.And(L(r, c) >= 0, L(r, c) <= self.n, (L(r, c) != 0) == mask(r, c))), patterns=[L(r, c)])),
                ('cells next to each other are of one component', z3.ForAll([r, c, r2, c2], z3.Implies(z3.And(ADJ(r, c, r2, c2), on(r, c), on(r2, c2), z3.Or([z3.And(r2 == r + a, c2 == c + b) for a, b in offs])), L(r, c) == L(r2, c2)),
                                                                            patterns=[ADJ(r, c, r2, c2)])),
                ('distance is natural', z3.ForAll([r, c], self.rk(r, c) >= 0, patterns=[self.rk(r, c)])),
                ('components hang together', z3.ForAll([r, c], self.parent(r, c, offs), patterns=[self.pr(r, c)])),
                ('every number is used', z3.ForAll([l], z3.Implies(z3.And(l >= 1, l <= self.n), z3.And(self.inside(self.rr(l), self.rc(l)), L(self.rr(l), self.rc(l)) == l)), patterns=[self.rr(l)]))]
