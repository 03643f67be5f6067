"""Stand-ins for the readers and writers the tools are given: what a reader yields, what a writer was handed."""
from .grid import *


def transform(st, name='t'):
    return tuple(N(z3.Real('%s%d' % (name, i)), 'f8') for i in range(6))


def raster_reader(ex, st, ref, tr=None, **more):
    """object whose read() gives a new copy of the array"""
    attrs = {'read': BI('read', lambda ex, st, args, kw: ex.alloc(st, st.heap[ref.id]))}
    if tr is not None:
        attrs['transform'] = tr
    attrs.update(more)
    return ex.alloc(st, ObjC(None, attrs))


def raster_writer(ex, st, **more):
    """object that keeps the arrays passed to write()"""
    out = ex.alloc(st, ListC([]))

    def write(ex, st, args, kw):
        a = args[0]
        if isinstance(a, ArrView):
            a = ex.lib.materialize(ex, st, a)
        if not (isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrC)):
            raise Unsupported('something that is not an array is written')
        ex.lib.l_append(ex, st, out, st.heap[out.id], ex.alloc(st, st.heap[a.id]))
        return None
    attrs = {'write': BI('write', write), 'written': out}
    attrs.update(more)
    return ex.alloc(st, ObjC(None, attrs))


def written(st, w):
    """the arrays passed to the writer (references), or None when that depends on the path taken"""
    c = st.heap[st.heap[w.id].attrs['written'].id]
    if not isinstance(c, ListC) or any(g is not None and not z3.is_true(z3.simplify(g)) for g, _ in c.items):
        return None
    return [v for _, v in c.items]


def tool(ex, st, fn, **kwargs):
    """an instance of the class the method belongs to, made by its constructor"""
    parts = fn.qual.split('.')
    cls = ex.getglobal(st, 'mod:' + '.'.join(parts[:-2]), parts[-2])
    return ex.instantiate(cls, [], kwargs, st, None)
