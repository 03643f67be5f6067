"""Contracts of the commands (C20): what each of them leaves in which file, as a composition of the algorithms.

The contents of rasters and layers are opaque here: every algorithm stands for a function of what it is given (that it is one, and
which one, is the subject of the contracts of C01..C17).  The stages of DEM and bluespots are executed in line, from the files read to
the files written; the io classes are stand-ins over a ghost file system."""
from .stand import *
from vf.core import Obl
from vf.vals import U


class Words(object):
    """function symbols over opaque contents"""
    def __init__(self):
        self.d = {}

    def lit(self, s):
        return z3.Const('"%s"' % (s,), U)

    def term(self, x):
        if x is None:
            return self.lit('None')
        if isinstance(x, Op):
            return x.t
        if isinstance(x, (str, bool)):
            return self.lit(x)
        if isinstance(x, EnumMember):
            return self.lit('%s.%s' % (x.cls, x.name))
        if is_num(x):
            return rterm(x)
        if isinstance(x, z3.ExprRef):
            return x
        raise Unsupported('argument %r of an algorithm' % (x,))

    def __call__(self, name, *args):
        ts = []
        for a in args:
            ts += [self.term(y) for y in a] if isinstance(a, tuple) else [self.term(a)]
        return self.f(name, ts, U)

    def num(self, name, sort, *args):
        return self.f(name, [self.term(a) for a in args], sort)

    def f(self, name, ts, sort):
        k = (name, tuple(str(t.sort()) for t in ts), str(sort))
        if k not in self.d:
            self.d[k] = z3.Function(name, *([t.sort() for t in ts] + [sort]))
        return self.d[k](*ts)


F = Words()


def content(ex, st, t):
    """an array (or list, or features) in memory, with an opaque content"""
    def data(st, o):
        return st.heap[o.id].attrs['data'].t
    o = ex.alloc(st, ObjC(None, {}))

    def sub(ex, st, args, kw):
        return content(ex, st, F('difference', data(st, o), inner(st, args[0])))
    st.heap[o.id] = ObjC(None, {
        'data': Op(t),
        'astype': BI('astype', lambda ex, st, args, kw: content(ex, st, data(st, o))),
        'copy': BI('copy', lambda ex, st, args, kw: content(ex, st, data(st, o))),
        '__sub__': BI('sub', sub),
        '__len__': BI('len', lambda ex, st, args, kw: N(F.num('size', z3.IntSort(), data(st, o)), 'int')),
    })
    return o


def inner(st, v):
    """the term an opaque value stands for"""
    if isinstance(v, Ref):
        c = st.heap[v.id]
        if isinstance(c, ObjC) and 'data' in c.attrs:
            return c.attrs['data'].t
        if isinstance(c, DictC) and 'features' in c.d:
            return inner(st, c.d['features'][1])
        raise Unsupported('opaque content expected')
    if isinstance(v, (Op, str)) or v is None or is_num(v):
        return F.term(v)
    raise Unsupported('opaque content expected, not %r' % (v,))


# ------------------------------------------------------------------ ghost file system
def key(*parts):
    return '|'.join(F.term(p).sexpr() for p in parts)


class Files(object):
    """glue: the io classes, gdal, ogr and os as the commands see them"""
    def __init__(self):
        self.store = None

    def external(self, ex, st, full):
        if full == 'os.path.join':
            return BI(full, lambda ex, st, a, k: Op(F('join', *a)))
        if full == 'os.path.isdir':
            return BI(full, lambda ex, st, a, k: mk(self.isdir, 'bool') if self.isout(a) else ex.lib.unsup(full))
        if full == 'os.path.exists':
            return BI(full, lambda ex, st, a, k: mk(self.exists, 'bool') if self.isout(a) else ex.lib.unsup(full))
        if full == 'os.listdir':
            return BI(full, self.listdir)
        if full.startswith('osgeo.ogr.wkb'):
            return Op(F.lit(full))
        if full == 'osgeo.gdal.UseExceptions':
            return Null()
        return NotImplemented

    def isout(self, a):
        return isinstance(a[0], Op) and a[0].t.eq(F.lit('<outdir>'))

    def listdir(self, ex, st, a, k):
        if not self.isout(a):
            raise Unsupported('os.listdir')
        ex.need(st, 'the directory listed exists', self.isdir)
        return ex.alloc(st, ListC([(self.busy, Op(F.lit('<entry>')))]))

    def call(self, ex, st, fn, args, kwargs):
        return NotImplemented

    def call_other(self, ex, st, f, args, kwargs):
        return NotImplemented

    # -------------------------------------------------------------- classes
    def instantiate(self, ex, st, c, args, kwargs):
        h = {'malstroem.io.RasterReader': self.raster_reader, 'malstroem.io.RasterWriter': self.raster_writer,
             'malstroem.io.VectorReader': self.vector_reader, 'malstroem.io.VectorWriter': self.vector_writer,
             'malstroem.streams.StreamTool': self.stream, 'malstroem.rain.SimpleVolumeTool': self.rain, 'malstroem.rain.RasterVolumeTool': self.raster_rain,
             'malstroem.network.FinalStateCalculator': self.final}.get(c.qual)
        if h is None:
            return None
        ini = c.methods['__init__']
        names = [x.arg for x in ini.node.args.args][1:]
        d = dict(zip(names, args))
        if len(args) > len(names) or any(k not in names or k in d for k in kwargs):
            raise Unsupported('arguments of %s' % c.qual)
        d.update(kwargs)
        for n, v in zip(names[len(names) - len(ini.defaults):], ini.defaults):
            if n not in d:
                d[n] = None if isinstance(v, Ref) else v
        ex.used_contracts.add(c.qual)
        return h(ex, st, **d)

    def entry(self, ex, st, k, what):
        c = st.heap[self.store.id]
        v = c.attrs.get(k)
        if v is None:
            ex.need(st, '%s was written before it is read' % what, z3.BoolVal(False))
            raise Unsupported('%s is read before it is written' % what)
        return ex.defined(v, k, st, None)

    def put(self, ex, st, k, v):
        self.touch(ex, st)
        c = st.heap[self.store.id]
        if k in c.attrs:
            ex.need(st, 'each output is written once', z3.BoolVal(False))
        st.heap[self.store.id] = ObjC(None, dict(c.attrs, **{k: v}))

    def touch(self, ex, st):
        if self.forbidden is not None:
            ex.need(st, 'nothing is written to a directory that is refused', NOT(self.forbidden))

    def raster_reader(self, ex, st, filepath, nodatasubst=None):
        k = key('raster', filepath)
        e = self.entry(ex, st, k, 'raster')
        data, tr, crs, nodata = e

        def value():
            if nodatasubst is None or nodata is None or nodata is nodatasubst or (isinstance(nodata, (int, float)) and isinstance(nodatasubst, (int, float)) and nodata == nodatasubst):
                return data.t                       # nothing to substitute, or the substitute is what stands for nodata
            return F('substituted', data, nodata, nodatasubst)

        def read(ex, st, args, kw):
            ex.need(st, 'the file opened is the one read', z3.BoolVal(self.entry(ex, st, k, 'raster')[0].t.eq(data.t)))
            return content(ex, st, value())
        return ex.alloc(st, ObjC(None, {'filepath': filepath, 'transform': tr, 'crs': crs, 'nodata': nodata, 'nodatasubst': nodatasubst, 'read': BI('read', read), 'data': Op(F('raster', value(), tr))}))

    def raster_writer(self, ex, st, filepath, transform, crs, nodata=None):
        k = key('raster', filepath)

        def write(ex, st, args, kw):
            self.put(ex, st, k, (Op(inner(st, args[0])), transform, crs, nodata))
        o = ex.alloc(st, ObjC(None, {'filepath': filepath, 'transform': transform, 'crs': crs, 'nodata': nodata, 'write': BI('write', write)}))
        return o

    def vector_reader(self, ex, st, datasource, layername=None):
        k = key('layer', datasource, layername)
        data, crs, geom = self.entry(ex, st, k, 'layer')

        def read(ex, st, args, kw):
            return content(ex, st, data.t)
        return ex.alloc(st, ObjC(None, {'datasource': datasource, 'layername': layername, 'crs': crs, 'read_geojson_features': BI('read', read), 'data': data}))

    def vector_writer(self, ex, st, driver, datasource, layername, fields, geomtype, crs, dsco=None, lco=None):
        k = key('layer', datasource, layername)

        def write(ex, st, args, kw):
            self.put(ex, st, k, (Op(inner(st, args[0])), crs, geomtype))
        return ex.alloc(st, ObjC(None, {'driver': driver, 'datasource': datasource, 'layername': layername, 'crs': crs, 'geomtype': geomtype, 'write_geojson_features': BI('write', write)}))

    # -------------------------------------------------------------- tools that are functions of their inputs
    def hand(self, ex, st, writer, t):
        """the stage hands its result to the writer it was given"""
        if writer is None:
            return
        c = st.heap[writer.id]
        w = c.attrs.get('write_geojson_features') or c.attrs.get('write')
        w.f(ex, st, [content(ex, st, t)], {})

    def stage(self, ex, st, outs, *inputs):
        ins = []
        for v in inputs:
            ins.append(v if not isinstance(v, Ref) else Op(inner(st, v)))

        def process(ex, st, args, kw):
            for name, w in outs:
                self.hand(ex, st, w, F(name, *ins))
        return ex.alloc(st, ObjC(None, {'process': BI('process', process)}))

    def stream(self, ex, st, input_pourpoints, input_bluespots, input_flowdir, output_nodes, output_streams=None):
        return self.stage(ex, st, [('nodes of the network', output_nodes), ('reaches of the network', output_streams)], input_pourpoints, input_bluespots, input_flowdir)

    def rain(self, ex, st, input_nodes, output_volumedata, output_volume_attribute, rainmm):
        return self.stage(ex, st, [('even rain', output_volumedata)], input_nodes, output_volume_attribute, rainmm)

    def raster_rain(self, ex, st, input_nodes, input_bluespots, input_precip, input_precip_unit, output_volumedata, output_volume_attribute):
        return self.stage(ex, st, [('rain raster', output_volumedata)], input_nodes, input_bluespots, input_precip, input_precip_unit, output_volume_attribute)

    def final(self, ex, st, input_nodes, input_volume_attribute, output_finalstatedata):
        return self.stage(ex, st, [('final state', output_finalstatedata)], input_nodes, input_volume_attribute)


class Alg(Contract):
    """an algorithm as a function of opaque contents"""
    trusted = 'a function of its inputs (contracts of the other properties)'

    def __init__(self, f, node, *quals):
        self.f, self.node, self.quals = f, node, quals

    def apply(self, ex, fn, args, kwargs, st, node):
        names = [x.arg for x in fn.node.args.args]
        d = dict(zip(names, args))
        if len(args) > len(names) or any(k not in names or k in d for k in kwargs):
            raise Unsupported('arguments of ' + fn.qual)
        d.update(kwargs)
        for n, v in zip(names[len(names) - len(fn.defaults):], fn.defaults):
            d.setdefault(n, None if isinstance(v, Ref) else v)
        if any(n not in d for n in names):
            raise Unsupported('missing argument of ' + fn.qual)
        return self.f(ex, st, *[d[n] for n in names])


def pure(name, nargs=None):
    """the result is a new content made from those of the arguments"""
    def f(ex, st, *args):
        return content(ex, st, F(name, *[inner(st, a) for a in args]))
    return f


def components(ex, st, data):
    t = F('components', inner(st, data))
    return (content(ex, st, t), N(F.num('greatest label', z3.IntSort(), t), 'int'))


def perlabel(name):
    """a list over the labels 0 to the greatest one (which may be given)"""
    def f(ex, st, data, lab, nlabels=None, *more):
        L = inner(st, lab)
        if nlabels is not None:
            ex.need(st, 'the number of labels given is that of the label raster', iterm(nlabels) == F.num('greatest label', z3.IntSort(), L))
        return content(ex, st, F(name, inner(st, data), L))
    return f


def safe(ex, st, data):
    t = inner(st, data)
    return (N(F.num('safe short drop', z3.RealSort(), t), 'f8'), N(F.num('safe diagonal drop', z3.RealSort(), t), 'f8'))


def sheds(ex, st, flowdir, labels, *more):
    a = st.heap[labels.id].attrs
    st.heap[labels.id] = ObjC(None, dict(a, data=Op(F('watersheds', inner(st, flowdir), inner(st, labels), *[inner(st, m) for m in more]))))
    return None


def polygons(ex, st, path, id_attribute='bspot_id'):
    data = FS.entry(ex, st, key('raster', path), 'raster')[0]
    return content(ex, st, F('polygons', data, id_attribute))


def polygons_io(ex, st, path, ds, layer, fmt, dsco=None, lco=None, id_attribute='bspot_id', quiet=False):
    data, tr, crs, nodata = FS.entry(ex, st, key('raster', path), 'raster')
    FS.put(ex, st, key('layer', ds, layer), (Op(F('polygons', data, id_attribute)), crs, Op(F.lit('osgeo.ogr.wkbPolygon'))))
    return None


def hypsometry(ex, st, bluespots, dem, pourpoints, resolution, writer):
    FS.hand(ex, st, writer, F('hypsometry', inner(st, bluespots), inner(st, dem), inner(st, pourpoints), resolution))
    return None


def levels(ex, st, finalvols, hyps, writer):
    FS.hand(ex, st, writer, F('levels', inner(st, finalvols), inner(st, hyps)))
    return None


def extents(ex, st, bluespots, lev, dem, depths=None, labels=None, background=0):
    ins = [inner(st, x) for x in (bluespots, lev, dem, background)]
    for name, w in (('depths of the final state', depths), ('bluespots of the final state', labels)):
        FS.hand(ex, st, w, F(name, *ins))
    return None


def keeping(ex, st, lab, keepers, *more):
    """keeping every label keeps every component: labelling again gives the same labels"""
    return content(ex, st, keep(inner(st, lab), inner(st, keepers), *[inner(st, m) for m in more]))


def keep(lab, keepers, *more):
    t = F('cells of the labels kept', lab, keepers, *(more or (0,)))
    if more and not z3.simplify(more[0]).eq(z3.RealVal(0)):
        return t
    if keepers.decl().name() == 'labels that pass' and keepers.arg(0).eq(F('filter', None)) and lab.decl().name() == 'components':
        return lab.arg(0)           # every label passes the empty filter, and the components are those of the same cells
    return t


FL, LB, FW, BS = 'malstroem.algorithms.fill.', 'malstroem.algorithms.label.', 'malstroem.algorithms.flow.', 'malstroem.bluespots.'
ALGS = [Alg(pure('filled'), None, FL + 'fill_terrain'),
        Alg(safe, None, FL + 'minimum_safe_short_and_diag'),
        Alg(pure('filled without flats'), None, FL + 'fill_terrain_no_flats'),
        Alg(pure('flow directions'), None, FW + 'terrain_flowdirection'),
        Alg(pure('accumulated flow'), None, FW + 'accumulated_flow', 'malstroem.algorithms.speedups._flow.accumulated_flow'),
        Alg(sheds, None, FW + 'watersheds_from_labels'),
        Alg(components, None, LB + 'connected_components'),
        Alg(perlabel('statistics'), None, LB + 'label_stats', 'malstroem.algorithms.speedups._label.label_stats'),
        Alg(perlabel('cell of the greatest value'), None, LB + 'label_max_index'),
        Alg(perlabel('cell of the least value'), None, LB + 'label_min_index', 'malstroem.algorithms.speedups._label.label_min_index'),
        Alg(keeping, None, LB + 'keep_labels'),
        Alg(pure('cells per label'), None, LB + 'label_count'),
        Alg(lambda ex, st, f, area, stats: content(ex, st, F('labels that pass', inner(st, f), area, inner(st, stats))), None, BS + 'filterbluespots'),
        Alg(lambda ex, st, tr, *a: content(ex, st, F('pour points', tr, *[inner(st, x) for x in a])), None, BS + 'assemble_pourpoints'),
        Alg(lambda ex, st, f: Op(F('filter', inner(st, f))), None, 'malstroem.scripts._utils.parse_filter'),
        Alg(polygons, None, 'malstroem.vector.vectorize_labels_file'),
        Alg(polygons_io, None, 'malstroem.vector.vectorize_labels_file_io'),
        Alg(hypsometry, None, 'malstroem.hyps.bluespot_hypsometry_io'),
        Alg(levels, None, 'malstroem.approx.approx_water_level_io'),
        Alg(extents, None, 'malstroem.approx.approx_bluespots_io')]

FS = None


# ------------------------------------------------------------------ what the commands are documented to give
class Doc(object):
    """contents as documented: each a function of earlier ones"""
    def __init__(self, tr):
        self.tr = tr

    def filled(self, D):
        return F('filled', D)

    def depths(self, filled, D):
        return F('difference', filled, D)

    def nf(self, D):
        return F('filled without flats', D, F.num('safe short drop', z3.RealSort(), D), F.num('safe diagonal drop', z3.RealSort(), D))

    def flowdir(self, D):
        return F('flow directions', self.nf(D), True)

    def accum(self, fd):
        return F('accumulated flow', fd)

    def labels(self, depths, filt):
        raw = F('components', depths)
        if filt is None:
            return raw
        t1, t5 = rterm(self.tr[1]), rterm(self.tr[5])
        area = z3.If(t1 >= 0, t1, -t1) * z3.If(t5 >= 0, t5, -t5)
        return F('components', keep(raw, F('labels that pass', F('filter', filt), area, F('statistics', depths, raw))))

    def sheds(self, fd, lab):
        return F('watersheds', fd, lab, 0)

    def pourpoints(self, lab, depths, sheds, cells):
        return F('pour points', self.tr, cells, F('statistics', depths, lab), F('cells per label', sheds))

    def most(self, accum, lab):
        return F('cell of the greatest value', accum, lab)

    def least(self, D, lab):
        return F('cell of the least value', self.nf(D), lab)

    def r(self, t):
        return F('raster', t, self.tr)


def nums_equal(a, b):
    """equal terms, up to the numbers in them (decided by the solver)"""
    return a == b


class Command(Contract):
    """base: symbolic file system, inputs present"""
    solver_timeout = 30
    fp = 'real'
    inputs = ()                 # (parameter, kind)

    def glue(self):
        global FS
        FS = self.fs = Files()
        FS.forbidden = None
        FS.isdir, FS.exists, FS.busy = z3.Bools('isdir exists busy')
        return FS

    def table(self):
        return {q: a for a in ALGS for q in a.quals}

    def prepare(self, ex):
        ex.lib.truth_hook = lambda ex, st, v: True          # texts given are not empty

    def setup(self, ex, st, fn):
        self.tr = transform(st)
        self.crs = Op(F.lit('<crs>'))
        st.assume(z3.And(self.tr[1].t > 0, self.tr[1].t == -self.tr[5].t))
        self.fs.store = ex.alloc(st, ObjC(None, {}))
        self.doc = Doc(self.tr)
        args = {p: Op(F.lit('<%s>' % p)) for p in self.params}
        for p, k in self.inputs:
            if k == 'terrain':
                self.given(st, key('raster', args[p]), (Op(F.lit('[%s]' % p)), self.tr, self.crs, Op(F.lit('<nodata of the terrain>'))))
            elif k == 'raster':
                self.given(st, key('raster', args[p]), (Op(F.lit('[%s]' % p)), self.tr, self.crs, Op(F.lit('<nodata of %s>' % p))))
            else:
                self.given(st, key('layer', args[p], args[k]), (Op(F.lit('[%s]' % p)), self.crs, Op(F.lit('<geometry type>'))))
        self.more(ex, st, args)
        self.entry = dict(st.heap[self.fs.store.id].attrs)
        return args

    def given(self, st, k, v):
        st.heap[self.fs.store.id] = ObjC(None, dict(st.heap[self.fs.store.id].attrs, **{k: v}))

    def more(self, ex, st, args):
        pass

    def modifies(self, ex, st, a, g):
        return [self.fs.store]

    def terrain(self, p='dem'):
        return F('substituted', F.lit('[%s]' % p), F.lit('<nodata of the terrain>'), -999)

    def outputs(self, a):
        """{key: content} of everything that is written"""
        return {}

    def post(self, ex, old, st, a, g, res):
        want = self.outputs(a)
        got = {k: v for k, v in st.heap[self.fs.store.id].attrs.items() if k not in self.entry}
        out = []
        nm = lambda k: k.replace('|"', '').replace('|', ' ').replace('"', '')
        for k, t in want.items():
            v = got.get(k)
            out.append(('%s is written' % nm(k), z3.BoolVal(False) if v is None or isinstance(v, Undef) else NOT(v.when) if isinstance(v, PUndef) else z3.BoolVal(True)))
            if v is None or isinstance(v, Undef):
                continue
            v = v.v if isinstance(v, PUndef) else v
            out.append(('%s holds what is documented' % nm(k), v[0].t == t))
            if k.startswith(key('raster', 'x').split('|')[0]) and k.startswith('|"raster'):
                out.append(('%s lies where the terrain lies' % nm(k), z3.And([rterm(x) == rterm(y) for x, y in zip(v[1], self.tr)] + [F.term(v[2]) == self.crs.t])))
            else:
                out.append(('%s has the coordinate system of the terrain' % nm(k), F.term(v[1]) == self.crs.t))
        for k in got:
            if k not in want:
                out.append(('nothing else is written (%s)' % nm(k), got[k].when if isinstance(got[k], PUndef) else z3.BoolVal(isinstance(got[k], Undef))))
        return out


class Complete(Command):
    """All stages at once: each is fed by the outputs of the earlier ones and by what was given."""
    quals = ('malstroem.scripts.complete.process_all',)
    params = ('dem', 'outdir', 'accum', 'filter', 'mm', 'zresolution', 'vector')
    inputs = (('dem', 'terrain'),)
    variant = 'accum,filter,vector'

    def more(self, ex, st, args):
        v = self.variant.split(',')
        args['accum'] = 'accum' in v
        args['vector'] = 'vector' in v
        if 'filter' not in v:
            args['filter'] = None
        args['mm'], args['zresolution'] = real(st, 'mm'), real(st, 'zresolution')
        fs = self.fs
        st.assume(z3.Implies(fs.isdir, fs.exists))
        if 'refused' in v:
            fs.forbidden = z3.Or(z3.Not(fs.isdir), fs.busy)
            st.assume(fs.forbidden)
        else:
            st.assume(z3.And(fs.isdir, z3.Not(fs.busy)))

    def outputs(self, a):
        v = self.variant.split(',')
        if 'refused' in v:
            return {}
        d, D = self.doc, self.terrain()
        P = lambda n: Op(F('join', a.outdir, n))
        gp = P('malstroem.gpkg')
        o = {}
        R = lambda n, t: o.__setitem__(key('raster', P(n)), t) or t
        V = lambda n, t: o.__setitem__(key('layer', gp, n), t) or t
        filled = R('filled.tif', d.filled(D))
        depths = R('bs_depths.tif', d.depths(filled, D))
        fd = R('flowdir.tif', d.flowdir(D))
        accum = R('accum.tif', d.accum(fd)) if 'accum' in v else None
        lab = R('bluespots.tif', d.labels(depths, a.filter))
        ws = R('watersheds.tif', d.sheds(fd, lab))
        if 'vector' in v:
            V('bluespots', F('polygons', lab, 'bspot_id'))
            V('watersheds', F('polygons', ws, 'bspot_id'))
        pp = V('pourpoints', d.pourpoints(lab, depths, ws, d.most(accum, lab) if accum is not None else d.least(D, lab)))
        nodes = V('nodes', F('nodes of the network', pp, d.r(lab), d.r(fd)))
        V('streams', F('reaches of the network', pp, d.r(lab), d.r(fd)))
        vols = V('initvolumes', F('even rain', nodes, 'inputv', a.mm))
        final = V('finalstate', F('final state', vols, 'inputv'))
        hyps = V('hypsometry', F('hypsometry', d.r(lab), d.r(D), pp, a.zresolution))
        lev = V('finallevels', F('levels', final, hyps))
        R('finaldepths.tif', F('depths of the final state', d.r(lab), lev, d.r(D), z3.RealVal(0)))
        fb = R('finalbluespots.tif', F('bluespots of the final state', d.r(lab), lev, d.r(D), z3.RealVal(0)))
        V('finalbluespots', F('polygons', fb, 'bspot_id'))
        return o

    def post(self, ex, old, st, a, g, res):
        out = Command.post(self, ex, old, st, a, g, res)
        if 'refused' in self.variant.split(','):
            out.append(('the refusal is reported', NOT(falsy(res)) if not isinstance(res, int) else z3.BoolVal(res != 0)))
        return out

    def raises(self, ex, st, a, g):
        return [('*', z3.BoolVal('refused' in self.variant))]


class Filled(Command):
    quals = ('malstroem.scripts.dem.process_filled',)
    params = ('dem', 'out')
    inputs = (('dem', 'terrain'),)

    def outputs(self, a):
        return {key('raster', a.out): self.doc.filled(self.terrain())}


class Depths(Command):
    quals = ('malstroem.scripts.dem.process_depths',)
    params = ('dem', 'filled', 'out')
    inputs = (('dem', 'terrain'),)

    def more(self, ex, st, args):       # as written by the command before
        self.given(st, key('raster', args['filled']), (Op(F.lit('[filled]')), self.tr, self.crs, -999))

    def outputs(self, a):
        return {key('raster', a.out): self.doc.depths(F.lit('[filled]'), self.terrain())}


class FlowDir(Command):
    quals = ('malstroem.scripts.dem.process_flowdir',)
    params = ('dem', 'out')
    inputs = (('dem', 'terrain'),)

    def outputs(self, a):
        return {key('raster', a.out): self.doc.flowdir(self.terrain())}


class Accum(Command):
    quals = ('malstroem.scripts.dem.process_accum',)
    params = ('flowdir', 'out')
    inputs = (('flowdir', 'raster'),)

    def outputs(self, a):
        return {key('raster', a.out): self.doc.accum(F.lit('[flowdir]'))}


class Bspots(Command):
    quals = ('malstroem.scripts.bluespot.process_bspots',)
    params = ('depths', 'out', 'filter')
    inputs = (('depths', 'raster'),)
    variant = 'filter'

    def more(self, ex, st, args):
        if self.variant != 'filter':
            args['filter'] = None

    def outputs(self, a):
        return {key('raster', a.out): self.doc.labels(F.lit('[depths]'), a.filter)}


class Wsheds(Command):
    quals = ('malstroem.scripts.bluespot.process_wsheds',)
    params = ('bluespots', 'flowdir', 'out')
    inputs = (('bluespots', 'raster'), ('flowdir', 'raster'))

    def outputs(self, a):
        return {key('raster', a.out): self.doc.sheds(F.lit('[flowdir]'), F.lit('[bluespots]'))}


class Pourpts(Command):
    quals = ('malstroem.scripts.bluespot.process_pourpoints',)
    params = ('bluespots', 'depths', 'watersheds', 'dem', 'accum', 'out', 'format', 'layername', 'dsco', 'lco')
    inputs = (('bluespots', 'raster'), ('depths', 'raster'), ('watersheds', 'raster'), ('dem', 'terrain'), ('accum', 'raster'))
    variant = 'accum'

    def more(self, ex, st, args):
        if self.variant != 'accum':
            args['accum'] = None
        else:
            args['dem'] = None

    def outputs(self, a):
        d = self.doc
        lab = F.lit('[bluespots]')
        cells = d.most(F.lit('[accum]'), lab) if a.accum is not None else d.least(self.terrain(), lab)
        return {key('layer', a.out, a.layername): d.pourpoints(lab, F.lit('[depths]'), F.lit('[watersheds]'), cells)}


class Polys(Command):
    quals = ('malstroem.scripts.bluespot.process_polys',)
    params = ('raster', 'out', 'format', 'layername', 'dsco', 'lco')
    inputs = (('raster', 'raster'),)

    def outputs(self, a):
        return {key('layer', a.out, a.layername): F('polygons', F.lit('[raster]'), 'bspot_id')}


class Network(Command):
    quals = ('malstroem.scripts.stream.process_network',)
    params = ('bluespots', 'flowdir', 'pourpoints', 'pourpoints_layer', 'out', 'out_nodes_layer', 'out_streams_layer', 'format', 'dsco', 'lco')
    inputs = (('bluespots', 'raster'), ('flowdir', 'raster'), ('pourpoints', 'pourpoints_layer'))

    def outputs(self, a):
        d = self.doc
        x = (F.lit('[pourpoints]'), d.r(F.lit('[bluespots]')), d.r(F.lit('[flowdir]')))
        return {key('layer', a.out, a.out_nodes_layer): F('nodes of the network', *x), key('layer', a.out, a.out_streams_layer): F('reaches of the network', *x)}


class Volumes(Command):
    quals = ('malstroem.scripts.initvolume.process_volumes',)
    params = ('nodes', 'nodes_layer', 'mm', 'pr', 'pr_unit', 'bluespots', 'out', 'out_layer', 'out_attribute', 'format', 'dsco', 'lco')
    inputs = (('nodes', 'nodes_layer'), ('pr', 'raster'), ('bluespots', 'raster'))
    variant = 'mm'

    def more(self, ex, st, args):
        if self.variant == 'mm':
            args['mm'], args['pr'] = real(st, 'mm'), None
        else:
            args['mm'] = None

    def outputs(self, a):
        d = self.doc
        t = F('even rain', F.lit('[nodes]'), a.out_attribute, a.mm) if self.variant == 'mm' else \
            F('rain raster', F.lit('[nodes]'), d.r(F.lit('[bluespots]')), d.r(F.lit('[pr]')), a.pr_unit, a.out_attribute)
        return {key('layer', a.out, a.out_layer): t}


class FinalState(Command):
    quals = ('malstroem.scripts.finalstate.process_net',)
    params = ('inputvolumes', 'inputvolumes_layer', 'attribute', 'out', 'out_layer', 'format', 'dsco', 'lco')
    inputs = (('inputvolumes', 'inputvolumes_layer'),)

    def outputs(self, a):
        return {key('layer', a.out, a.out_layer): F('final state', F.lit('[inputvolumes]'), a.attribute)}


class Hyps(Command):
    quals = ('malstroem.scripts.hyps.process_hypsometry',)
    params = ('bluespots', 'dem', 'pourpoints', 'pourpoints_layer', 'zresolution', 'out', 'out_hyps_layer', 'format', 'dsco', 'lco')
    inputs = (('bluespots', 'raster'), ('dem', 'terrain'), ('pourpoints', 'pourpoints_layer'))

    def more(self, ex, st, args):
        args['zresolution'] = real(st, 'zresolution')

    def outputs(self, a):
        d = self.doc
        return {key('layer', a.out, a.out_hyps_layer): F('hypsometry', d.r(F.lit('[bluespots]')), d.r(self.terrain()), F.lit('[pourpoints]'), a.zresolution)}


class Levels(Command):
    quals = ('malstroem.scripts.finalstate.process_finallevels',)
    params = ('finalvols', 'finalvols_layer', 'hyps', 'hyps_layer', 'out', 'out_layer', 'format', 'dsco', 'lco')
    inputs = (('finalvols', 'finalvols_layer'), ('hyps', 'hyps_layer'))

    def outputs(self, a):
        return {key('layer', a.out, a.out_layer): F('levels', F.lit('[finalvols]'), F.lit('[hyps]'))}


class Extents(Command):
    quals = ('malstroem.scripts.finalstate.process_bluespots',)
    params = ('bluespots', 'dem', 'finallevels', 'finallevels_layer', 'out_depths', 'out_bluespots')
    inputs = (('bluespots', 'raster'), ('dem', 'terrain'), ('finallevels', 'finallevels_layer'))
    variant = 'both'

    def more(self, ex, st, args):
        if self.variant == 'depths':
            args['out_bluespots'] = None
        if self.variant == 'bluespots':
            args['out_depths'] = None

    def outputs(self, a):
        d = self.doc
        x = (d.r(F.lit('[bluespots]')), F.lit('[finallevels]'), d.r(self.terrain()), z3.RealVal(0))
        o = {}
        if a.out_depths is not None:
            o[key('raster', a.out_depths)] = F('depths of the final state', *x)
        if a.out_bluespots is not None:
            o[key('raster', a.out_bluespots)] = F('bluespots of the final state', *x)
        return o


class NoFilter(Contract):
    """without a filter text every label passes"""
    quals = ('malstroem.scripts._utils.parse_filter',)
    params = ('filter',)

    def setup(self, ex, st, fn):
        return {'filter': None}

    def accepts(self, ex, st, a):
        return False

    def post(self, ex, old, st, a, g, res):
        r = ex.call_fn(res, [Op(F.lit('<statistics of a label>'))], {}, st, None)
        return [('every label passes', NOT(falsy(r)))]


# verified against the commands only; never used at call sites of other proofs
CONTRACTS = [Complete(), Filled(), Depths(), FlowDir(), Accum(), Bspots(), Wsheds(), Pourpts(), Polys(), Network(), Volumes(), FinalState(), Hyps(), Levels(), Extents(), NoFilter()]
