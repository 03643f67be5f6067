"""Stand-ins for vector readers and writers: GeoJSON features as lists of dicts of symbolic length."""
from .stand import *


def field(name, k='f8', none=False):
    """attribute of feature i: a number (or None)"""
    s = I if k in INTK else z3.RealSort()
    f = z3.Function(name, I, s)
    if none:
        nn = z3.Function(name + '_none', I, B)
        return lambda i: Opt(nn(i), N(f(i), k))
    return lambda i: N(f(i), k)


ISPP = z3.Function('ispourpoint', I, B)


def nodetype(i):
    return Uni([(ISPP(i), 'pourpoint'), (z3.Not(ISPP(i)), 'junction')])


class Blob(object):
    """something the code only passes on"""
Opq = z3.DeclareSort('Opaque')


def opaque(name):
    f = z3.Function(name, I, Opq)
    return lambda i: Op(f(i), name)


def features(ex, st, fields, n='nfeatures', geometry='geom'):
    """list of features: dicts with type, geometry and properties"""
    n = z3.Int(n)
    st.assume(n >= 0)
    geo = opaque(geometry)
    return ex.alloc(st, TreeC(SeqV(n, lambda i: DictV({'type': 'Feature', 'geometry': geo(i), 'properties': DictV({k: f(i) for k, f in fields.items()})})))), n


def vector_reader(ex, st, ref, **more):
    attrs = {'read_geojson_features': BI('read_geojson_features', lambda ex, st, args, kw: ref)}
    attrs.update(more)
    return ex.alloc(st, ObjC(None, attrs))


def vector_writer(ex, st, **more):
    """keeps the list passed to write_geojson_features()"""
    out = ex.alloc(st, ListC([]))

    def write(ex, st, args, kw):
        v = args[0]
        if isinstance(v, (IterV, FiltV)):
            v = ex.lib.make_list(ex, st, v, None)
        if not isinstance(v, Ref):
            raise Unsupported('something that is not a list of features is written')
        ex.lib.l_append(ex, st, out, st.heap[out.id], v)
        return None
    attrs = {'write_geojson_features': BI('write_geojson_features', write), 'written': out}
    attrs.update(more)
    return ex.alloc(st, ObjC(None, attrs))


def prop(st, ref, i, name):
    """attribute of feature i in the heap content of the list: (condition missing, value) or None"""
    v = st.heap[ref.id].v.at(i).d['properties'].d.get(name, UNDEF)
    if isinstance(v, Undef):
        return None
    if isinstance(v, PUndef):
        return v.when, v.v
    return z3.BoolVal(False), v


def unchanged(ex, old, st, ref, i, but=()):
    """feature i is what it was apart from the named attributes (those it did not have before, or may change)"""
    a, b = old.heap[ref.id].v, st.heap[ref.id].v
    if not z3.simplify(a.n == b.n).eq(z3.BoolVal(True)):
        return a.n == b.n
    x, y = a.at(i), b.at(i)
    out = []
    for k in dict.fromkeys(list(x.d) + list(y.d)):
        if k == 'properties':
            continue
        if k not in x.d or k not in y.d:
            return z3.BoolVal(False)
        out.append(equal(ex, x.d[k], y.d[k]))
    p, q = x.d['properties'].d, y.d['properties'].d
    for k in dict.fromkeys(list(p) + list(q)):
        if k in but:
            continue
        if k not in p or k not in q:
            return z3.BoolVal(False)
        out.append(equal(ex, p[k], q[k]))
    return z3.And(out)


def equal(ex, a, b):
    if ex.same(a, b):
        return z3.BoolVal(True)
    if isinstance(a, PUndef) or isinstance(b, PUndef):
        wa, va = (a.when, a.v) if isinstance(a, PUndef) else (z3.BoolVal(False), a)
        wb, vb = (b.when, b.v) if isinstance(b, PUndef) else (z3.BoolVal(False), b)
        return z3.And(wa == wb, z3.Or(wa, equal(ex, va, vb)))
    try:
        return toB(term(ex.eq(a, b, State())))
    except Unsupported:
        return z3.BoolVal(False)


from vf.core import State
