"""Executable contracts of C07 to C20 (see base.py)."""
import itertools, math, os, json, tempfile, shutil, copy, logging
import numpy as np
from .base import *
from .props import CHECKS, check, both, down, path_of, ref_accum, ref_fill

logging.disable(logging.CRITICAL)
INFTY = float('inf')


# ------------------------------------------------------------------ stand-ins for readers and writers
class MemRaster(object):
    def __init__(self, data, transform=(0, 1, 0, 0, 0, -1), crs='', path='mem'):
        self.data, self.transform, self.crs, self.filepath = data, tuple(transform), crs, path
        self.shape = data.shape
        self.resolution = abs(transform[5]), abs(transform[1])
        self.nodata = self.nodatasubst = None

    def read(self):
        return self.data.copy(order='K')


class MemOut(object):
    def __init__(self, path='mem-out'):
        self.written = []
        self.filepath = path
        self.layername = 'mem'

    def write(self, data):
        self.written.append(data.copy(order='K'))

    def write_geojson_features(self, fs):
        if isinstance(fs, dict) and 'features' in fs:
            fs = fs['features']
        self.written.append(copy.deepcopy(list(fs)))

    @property
    def only(self):
        if len(self.written) != 1:
            raise AssertionError('written %d times instead of once' % len(self.written))
        return self.written[0]


class MemVector(object):
    def __init__(self, feats):
        self.feats = feats

    def read_geojson_features(self):
        return copy.deepcopy(self.feats)

    def reset_reader(self):
        pass


def transform(g, square=False):
    r = g.r
    w = r.choice([1.0, 0.4, 2.0, 10.0, 1.6])
    h = w if square or r.random() < .5 else r.choice([1.0, 0.4, 2.0, 10.0, 1.6])
    if square and r.random() < .25:      # up to one percent off counts as square
        h = w * r.choice([0.9925, 1.0075, 1.005, 0.998])
    rot = (0.0, 0.0) if r.random() < .7 else (r.choice([0.1, -0.25, 0.5]), r.choice([0.1, -0.25, 0.5]))
    return (r.choice([0.0, 500000.5, -30.0]), w, rot[0], r.choice([0.0, 6000000.0, 7.25]), rot[1], -h if r.random() < .85 else h)


def cells(a):
    return itertools.product(range(a.shape[0]), range(a.shape[1]))


def world(t, x):
    px, py = x[1] + 0.5, x[0] + 0.5
    return t[0] + px * t[1] + py * t[2], t[3] + px * t[4] + py * t[5]


def nearpt(p, q):
    return len(p) == len(q) and all(near(float(a), float(b), 1e-9, 1e-6) for a, b in zip(p, q))


# ------------------------------------------------------------------ C07
@check('C07')
class C07(object):
    """data and label rasters up to 14x14 cells, several number types and layouts, seeded; unused labels, given and derived label counts"""

    def cases(self, g):
        n = 0
        while True:
            n += 1
            r = g.r
            sh = (r.randint(8, 14), r.randint(8, 14)) if n % 9 == 0 else ((r.randint(1, 6), r.randint(1, 6)) if n % 5 == 0 else g.shape())
            ld = r.choice([np.int32, np.int32, np.int64, np.uint8, np.int16])
            L = g.labels(sh, dtype=ld)
            if r.random() < .15:
                L = L + 1        # no background
            data = g.dem(sh, dtype=r.choice([np.float32, np.float64, np.float64, np.int32]))
            if r.random() < .08 and data.dtype.kind == 'f':
                data[r.randrange(sh[0]), r.randrange(sh[1])] = r.choice([INFTY, -INFTY])
            mx = int(L.max())
            yield {'data': g.order(data), 'labels': g.order(L), 'n': r.choice([None, None, mx, mx + 2]) if mx else r.choice([None, 2]), 'bg': r.choice([0, 0, 0, 1, 2, mx]),
                   'values': [r.choice([r.uniform(-5, 5), float(r.randint(0, 3))]) for _ in range(mx + 1 + r.randint(0, 2))]}

    def check(self, c):
        from malstroem.algorithms import label
        data, L, n, bg = c['data'], c['labels'], c['n'], c['bg']
        if len(c['values']) <= int(L.max()):
            raise Skip()
        N = (n or int(L.max())) + 1
        own = [[] for _ in range(max(N, int(L.max()) + 1))]
        for x in cells(L):
            own[int(L[x])].append((float(data[x]), x))

        def one(be):
            o = []
            keep = data.copy(), L.copy()
            st = label.label_stats(data, L, n)
            mi = label.label_min_index(data, L, n)
            ma = label.label_max_index(data, L, n)
            ld = label.label_data(data, L, n, bg)
            for nm, res in (('statistics', st), ('minimum cells', mi), ('maximum cells', ma), ('values', ld)):
                if len(res) < N or (n and len(res) != N):
                    o.append('%s for %d labels instead of %d' % (nm, len(res), N))
            if o:
                return o
            for l in range(N):
                vs = [v for v, _ in own[l]]
                want = (min(vs + [INFTY]), max(vs + [-INFTY]), len(vs))
                got = (float(st[l]['min']), float(st[l]['max']), int(st[l]['count']))
                if want != got:
                    o.append('label %d: min, max, count %r instead of %r' % (l, got, want))
                s = 0.0
                for v in vs:
                    s += v
                if not (near(float(st[l]['sum']), s, 1e-9, 1e-9 * sum(abs(v) for v in vs)) or s != s and st[l]['sum'] != st[l]['sum']):
                    o.append('label %d: sum %r instead of %r' % (l, float(st[l]['sum']), s))
                for nm, rec, best in (('minimum', mi[l], want[0]), ('maximum', ma[l], want[1])):
                    first = next((x for v, x in own[l] if v == best), (-1, -1))
                    if best in (INFTY, -INFTY) and best == {'minimum': INFTY, 'maximum': -INFTY}[nm]:
                        first = (-1, -1)
                    if (float(rec['value']), int(rec['row']), int(rec['col'])) != (best,) + first:
                        o.append('label %d: %s %r at %r instead of %r at %r' % (l, nm, float(rec['value']), (int(rec['row']), int(rec['col'])), best, first))
                lst = [float(v) for v in ld[l]]
                if lst != ([] if l == bg else vs):
                    o.append('label %d: values %r instead of %r' % (l, lst[:8], ([] if l == bg else vs)[:8]))
            cnt = label.label_count(L)
            if [int(v) for v in cnt] != [len(own[l]) for l in range(int(L.max()) + 1)]:
                o.append('cell counts %r' % [int(v) for v in cnt])
            res = label.set_label_to_value(L, list(c['values']))
            want = np.array([[c['values'][int(L[i, j])] for j in range(L.shape[1])] for i in range(L.shape[0])]).reshape(L.shape)
            if not same(res, want):
                o.append('values set by label: ' + where(res, want))
            if not (same(data, keep[0]) and same(L, keep[1])):
                o.append('an input raster was modified')
            return o
        return both(one)


# ------------------------------------------------------------------ C08
def regions(mask):
    out = np.zeros(mask.shape, int)
    n = 0
    for x in cells(mask):
        if mask[x] and not out[x]:
            n += 1
            out[x] = n
            q = [x]
            while q:
                i, j = q.pop()
                for di, dj in NEIGH:
                    y = i + di, j + dj
                    if 0 <= y[0] < mask.shape[0] and 0 <= y[1] < mask.shape[1] and mask[y] and not out[y]:
                        out[y] = n
                        q.append(y)
    return out, n


def same_partition(a, b):
    """message unless a numbers exactly the regions of b, 1..n, 0 outside"""
    m = {}
    for x in cells(b):
        p, q = int(a[x]), int(b[x])
        if (p == 0) != (q == 0):
            return 'cell %s has label %d' % (x, p) + (', but is dry or filtered out' if p else ', but belongs to a region')
        if m.setdefault(p, q) != q:
            return 'label %d is given to two regions' % p
    if len(set(m.values())) != len(m):
        return 'one region has two labels'
    ls = sorted(l for l in m if l)
    if ls != list(range(1, len(ls) + 1)):
        return 'labels are %r' % ls
    return None


def bad_filter(text):
    """is there anything else in it than the names, and/or, comparisons, numbers, parentheses?"""
    t = text
    for w in ('area', 'maxdepth', 'volume', 'and', 'or'):
        t = t.replace(w, '')
    return bool(set(t) - set('<>=!0123456789.() \t\n'))


class Expr(object):
    """random comparison over area, maxdepth, volume with its meaning"""

    @staticmethod
    def gen(r, depth=0):
        k = r.random()
        if depth < 2 and k < .45:
            a, fa = Expr.gen(r, depth + 1)
            b, fb = Expr.gen(r, depth + 1)
            op = r.choice(['and', 'or'])
            return '(%s) %s (%s)' % (a, op, b), (lambda s: (fa(s) and fb(s)) if op == 'and' else (fa(s) or fb(s)))
        v = r.choice(['area', 'maxdepth', 'volume'])
        op = r.choice(['<', '>', '<=', '>=', '==', '!='])
        n = r.choice([0, 1, 2, 3, 0.5, 1.5, 2.25, 4, 6.4, 10])
        sp = r.choice(['', ' '])
        import operator
        f = {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}[op]
        if r.random() < .8:
            return '%s%s%s%s%s' % (v, sp, op, sp, n), (lambda s: f(s[v], n))
        return '%s%s%s%s%s' % (n, sp, op, sp, v), (lambda s: f(n, s[v]))


@check('C08')
class C08(object):
    """depth rasters up to 12x12 cells, seeded, with function and text filters; stand-in readers and writers"""

    def cases(self, g):
        r = g.r
        n = 0
        while True:
            n += 1
            sh = (r.randint(8, 12), r.randint(8, 12)) if n % 9 == 0 else g.shape(hi=8)
            p = r.choice([.15, .3, .45, .6])
            d = np.array([[r.choice([0.25, 0.5, 1.0, 2.0, 3.5, 1e-4]) if r.random() < p else 0 for _ in range(sh[1])] for _ in range(sh[0])], np.float32)
            txt = None
            bad = None
            if r.random() < .8:
                txt = Expr.gen(r)[0]
                k = r.randrange(len(txt) + 1)
                bad = txt[:k] + r.choice(['x', '+', '*', '_', 'exec', '__import__', 'not ', '"', "'", '[', ']', ':', '-', '%', '&', '|', ',', 'min', 'depth', 'stats', 'e', 'if ', '#', ';', '\\', '~', '^', '@', '{', 'A', u'\u00e5']) + txt[k:]
            # keep the seed of the text so that the meaning can be rebuilt
            yield {'depths': g.order(d), 'filter': txt, 'bad': bad, 'transform': transform(g, square=True)}

    def check(self, c):
        from malstroem.bluespots import BluespotTool, filterbluespots
        from malstroem.scripts._utils import parse_filter
        d, txt, t = c['depths'], c['filter'], c['transform']
        area = abs(t[1]) * abs(t[5])
        reg, n = regions(d != 0)
        S = {}
        for x in cells(d):
            S.setdefault(int(reg[x]), []).append(float(d[x]))
        stats = {l: {'area': len(v) * area, 'maxdepth': max(v), 'volume': math.fsum(v) * area} for l, v in S.items()}

        def meaning(s):
            return bool(eval(txt, {'__builtins__': {}}, dict(s)))

        def close(s):      # volume or area within rounding of a number of the text
            nums = [float(x) for x in re.findall(r'\d+\.?\d*', txt)]
            return any(near(s[k], v, 1e-9, 1e-9) and s[k] != v for k in ('area', 'volume') for v in nums)
        out = []
        if txt is not None:
            f = parse_filter(txt)
            for s in ({'area': 1.0, 'maxdepth': 2.0, 'volume': 3.0}, {'area': 6.4, 'maxdepth': .5, 'volume': 0.0}, {'area': 0, 'maxdepth': 4, 'volume': 1.5}, {'area': 3, 'maxdepth': 0, 'volume': 10}):
                raw = {'area': s['area'], 'max': s['maxdepth'], 'volume': s['volume'], 'min': -9.0, 'sum': 77.0, 'count': 12345}
                if bool(f(raw)) != meaning(s):
                    out.append('filter %r says %r for %r' % (txt, bool(f(raw)), s))
                    break
            if c['bad'] and bad_filter(c['bad']):
                try:
                    parse_filter(c['bad'])
                    out.append('filter %r is accepted' % c['bad'])
                except Exception:
                    pass
        if txt is None or not any(close(s) for s in stats.values()):
            keep = {l for l in stats if l and (txt is None or meaning(stats[l]))}
            want = np.where(np.isin(reg, sorted(keep)), reg, 0) if keep else np.zeros_like(reg)

            def one(be):
                lab, pp, ws = MemOut(), MemOut(), MemOut()
                fd = np.zeros(d.shape, np.uint8)
                fd[1:-1, 1:-1] = 0
                h, w = d.shape
                for i in range(h):
                    for j in range(w):
                        fd[i, j] = 6 if j < w - 1 else 2
                acc = np.ones(d.shape)
                for fn in ([parse_filter(txt), None] if txt is None else [parse_filter(txt)]):
                    lab = MemOut()
                    tool = BluespotTool(MemRaster(d, t), MemRaster(fd, t), fn, lab, MemOut(), MemOut(), input_accum=MemRaster(acc, t))
                    tool.process()
                    m = same_partition(lab.only, want)
                    if m:
                        return ['bluespots with filter %r: %s' % (txt, m)]
                seen = []

                def rec(q):
                    seen.append({k: float(q[k]) for k in ('area', 'max', 'volume')})
                    return len(seen) % 2 == 0
                lab = MemOut()
                BluespotTool(MemRaster(d, t), MemRaster(fd, t), rec, lab, MemOut(), MemOut(), input_accum=MemRaster(acc, t)).process()
                # the filter may be asked in any order, but for the values of every region
                mine = [{'area': v['area'], 'max': v['maxdepth'], 'volume': v['volume']} for l, v in stats.items() if l]
                got = list(seen)
                for x in mine:
                    y = next((y for y in got if all(near(x[k], y[k], 1e-9, 1e-9) for k in x)), None)
                    if y is None:
                        return ['the filter is not asked for %r but for %r' % (x, seen[:4])]
                    got.remove(y)
                return self.command(c, want)
            out += both(one)
        return out

    n = 0

    def command(self, c, want):
        """the bspots command, on real files, now and then"""
        C08.n += 1
        if C08.n % 10 != 1:
            return []
        from malstroem.scripts.bluespot import process_bspots
        with Files() as fs:
            fs.raster('depths.tif', c['depths'], c['transform'])
            process_bspots.callback(fs.path('depths.tif'), fs.path('out.tif'), c['filter'])
            m = same_partition(fs.read('out.tif'), want)
            return ['bspots command with filter %r: %s' % (c['filter'], m)] if m else []


class Files(object):
    """scratch directory with rasters written and read by GDAL itself"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf-files-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.d, n)

    def raster(self, name, a, t, nodata=None, crs=None):
        from osgeo import gdal, osr
        gdal.UseExceptions()
        code = {'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64, 'int32': gdal.GDT_Int32, 'uint8': gdal.GDT_Byte, 'int16': gdal.GDT_Int16, 'uint16': gdal.GDT_UInt16,
                'uint32': gdal.GDT_UInt32}[a.dtype.name]
        ds = gdal.GetDriverByName('gtiff').Create(self.path(name), a.shape[1], a.shape[0], 1, code)
        ds.SetGeoTransform(list(t))
        ds.SetProjection(crs or CRS())
        b = ds.GetRasterBand(1)
        if nodata is not None:
            b.SetNoDataValue(nodata)
        b.WriteArray(np.ascontiguousarray(a))
        ds.FlushCache()
        ds = None

    def read(self, name):
        from osgeo import gdal
        gdal.UseExceptions()
        ds = gdal.Open(self.path(name))
        return ds.GetRasterBand(1).ReadAsArray()

    def layer(self, name, layer=None):
        from osgeo import ogr
        ds = ogr.Open(self.path(name))
        if ds is None:
            return None
        l = ds.GetLayerByName(layer) if layer else ds.GetLayerByIndex(0)
        if l is None:
            return None
        return [json.loads(f.ExportToJson()) for f in l]


def CRS():
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(25832)
    return s.ExportToWkt()


# ------------------------------------------------------------------ C09
@check('C09')
class C09(object):
    """depth, direction, accumulation and label rasters up to 12x12 cells, seeded; stand-in readers and writers"""

    def cases(self, g):
        r = g.r
        n = 0
        while True:
            n += 1
            sh = (r.randint(8, 12), r.randint(8, 12)) if n % 9 == 0 else g.shape()
            p = r.choice([.15, .3, .5])
            d = np.array([[r.choice([0.25, 0.5, 1.0, 2.0, 3.5]) if r.random() < p else 0 for _ in range(sh[1])] for _ in range(sh[0])], np.float32)
            if not (d == 0).any():
                d[0, 0] = 0
            fd = g.flow_tree(sh, edges_out='force')
            yield {'depths': d, 'flow': fd, 'dem': g.dem(sh), 'useacc': r.random() < .6, 'lie': r.random() < .2, 'filter': r.choice([None, None, 'volume > 1', 'area > 2.5', 'maxdepth > 0.4']),
                   'transform': transform(g, square=True)}

    def check(self, c):
        from malstroem.bluespots import BluespotTool
        from malstroem.scripts._utils import parse_filter
        from malstroem.algorithms import fill
        d, fd, t = c['depths'], c['flow'], c['transform']
        acc = ref_accum(fd)
        if c['lie']:        # any raster may be given as accumulated flow
            acc = -acc
        area = abs(t[1]) * abs(t[5])

        def one(be):
            lab, pp, ws = MemOut(), MemOut(), MemOut()
            tool = BluespotTool(MemRaster(d, t), MemRaster(fd, t), parse_filter(c['filter']), lab, pp, ws,
                                input_accum=MemRaster(acc, t) if c['useacc'] else None, input_dem=MemRaster(c['dem'], t))
            tool.process()
            L, W = lab.only, ws.only
            feats = pp.only
            if c['useacc']:
                key = -acc
            else:
                s, dg = fill.minimum_safe_short_and_diag(c['dem'])
                key = ref_fill(c['dem'].astype(np.float32), float(s), float(dg))
            return self.compare(feats, d, L, W, key, t, area)
        return both(one) + self.command(c)

    def compare(self, feats, d, L, W, key, t, area):
        ids = [f['properties']['bspot_id'] for f in feats]
        if sorted(ids) != list(range(int(L.max()) + 1)):
            return ['pour points of labels %r instead of 0..%d' % (ids[:20], L.max())]
        for f in feats:
            p = f['properties']
            l = p['bspot_id']
            own = [x for x in cells(L) if L[x] == l]
            if not own:
                continue
            x = (p['cell_row'], p['cell_col'])
            if x not in own:
                return ['pour point of label %d is at %s, which is not a cell of it' % (l, x)]
            if key[x] != min(key[y] for y in own):
                return ['pour point of label %d is at %s (%r), but the best cell has %r' % (l, x, float(key[x]), float(min(key[y] for y in own)))]
            vol = math.fsum(float(d[y]) for y in own) * area
            wa = int((W == l).sum()) * area
            want = {'bspot_dmax': max(float(d[y]) for y in own), 'bspot_area': len(own) * area, 'bspot_vol': vol, 'wshed_area': wa, 'bspot_fumm': 1000 * vol / wa if wa else None}
            for k, v in want.items():
                if v is not None and not near(float(p[k]), v, 1e-6, 1e-6):
                    return ['pour point %d: %s is %r instead of %r' % (l, k, p[k], v)]
            if f['geometry']['type'] != 'Point' or not nearpt(f['geometry']['coordinates'], world(t, x)):
                return ['pour point %d: point %r instead of %r' % (l, f['geometry']['coordinates'], world(t, x))]
            if f.get('id', l) != l:
                return ['pour point %d: feature id %r' % (l, f.get('id'))]
        return []

    n = 0

    def command(self, c):
        C09.n += 1
        if C09.n % 10 != 1:
            return []
        from malstroem.scripts.bluespot import process_pourpoints, process_wsheds
        from malstroem.algorithms import fill
        d, t = c['depths'], c['transform']
        L = regions(d != 0)[0].astype(np.int32)
        with Files() as fs:
            fs.raster('d.tif', d, t)
            fs.raster('b.tif', L, t)
            fs.raster('fd.tif', c['flow'], t)
            fs.raster('dem.tif', c['dem'], t)
            acc = ref_accum(c['flow'])
            fs.raster('acc.tif', acc, t)
            process_wsheds.callback(fs.path('b.tif'), fs.path('fd.tif'), fs.path('w.tif'))
            W = fs.read('w.tif')
            process_pourpoints.callback(fs.path('b.tif'), fs.path('d.tif'), fs.path('w.tif'), None if c['useacc'] else fs.path('dem.tif'), fs.path('acc.tif') if c['useacc'] else None,
                                        fs.path('pp.gpkg'), 'gpkg', 'pourpoints', (), ())
            if c['useacc']:
                key = -acc
            else:
                s, dg = fill.minimum_safe_short_and_diag(c['dem'])
                key = ref_fill(c['dem'].astype(np.float32), float(s), float(dg))
            fl = fs.layer('pp.gpkg', 'pourpoints')
            for f in fl:
                f['id'] = f['properties']['bspot_id']
            return ['pourpts command: ' + m for m in self.compare(fl, d, L, W, key, t, abs(t[1]) * abs(t[5]))]


# ------------------------------------------------------------------ C10 / C11 / C12
def network_case(g, nodir=True, pour='any'):
    """pour: 'any' cell of the label, or 'most': the cell of the label with the most cells upstream (relations of labels are a forest)"""
    r = g.r
    k = r.random()
    sh = (r.randint(8, 14), r.randint(8, 14)) if k < .3 else g.shape()
    fd = g.flow_tree(sh, nodir=r.choice([0, 0, .05]) if nodir else 0, edges_out=r.choice([True, True, 'force']))
    n = r.choice([0, 1, 2, 3, 5, 8] + ([12, 20, 30] if sh[0] * sh[1] >= 60 else []))
    L = np.zeros(sh, r.choice([np.int32, np.int32, np.int64, np.uint8]))
    pts = {}
    for l in range(1, n + 1):
        i, j = r.randrange(sh[0]), r.randrange(sh[1])
        for a in range(i, min(sh[0], i + r.randint(1, 2))):
            for b in range(j, min(sh[1], j + r.randint(1, 2))):
                L[a, b] = l
    m = 0
    L2 = np.zeros_like(L)
    for l in range(1, n + 1):     # numbered without gaps
        if (L == l).any():
            m += 1
            L2[L == l] = m
    own = {}
    for x in cells(L2):
        own.setdefault(int(L2[x]), []).append(x)
    if 0 not in own:
        L2[0, 0] = 0
        return network_case(g, nodir, pour)
    if pour == 'most':
        acc = ref_accum(fd)
        pts = [max(own[l], key=lambda x: acc[x]) for l in range(m + 1)]
    else:
        pts = [r.choice(own[l]) for l in range(m + 1)]
    return {'flow': g.order(fd), 'labels': g.order(L2), 'pts': pts}


def long_case(g):
    """few pour points, some thousand cells of common path: a column of cells going down with side paths at its upper end"""
    r = g.r
    n = r.choice([300, 1100, 2200, 4200])
    rot = r.randrange(4)
    code = {tuple(NEIGH[k]): k for k in range(8)}
    move = np.zeros((n, 7, 2), int)
    move[:] = (1, 0)
    for i in range(2, min(n - 3, 40)):
        for j in (1, 2, 4, 5):
            if r.random() < .15:
                move[i, j] = (1, 1 if j < 3 else -1)
    for i in range(40, min(n - 3, 45)):
        for j in (1, 2):
            move[i, j] = (1, 1)
        for j in (4, 5):
            move[i, j] = (1, -1)
    lab = np.zeros((n, 7), np.int32)
    spots = sorted(set((r.randrange(0, 40), r.randrange(1, 6)) for _ in range(r.randint(2, 6))))
    if r.random() < .7:
        spots.append((n - 3, 3))
    r.shuffle(spots)
    for l, x in enumerate(spots):
        lab[x] = l + 1
    acc = np.ones((n, 7), int)
    for i in range(n - 1):
        for j in range(7):
            acc[i + 1, j + int(move[i, j, 1])] += acc[i, j]
    lab, move, acc = np.rot90(lab, rot).copy(), np.rot90(move, rot).copy(), np.rot90(acc, rot)
    fd = np.zeros(lab.shape, np.uint8)
    for x in cells(lab):
        a, b = (int(v) for v in move[x])
        for _ in range(rot):
            a, b = -b, a
        fd[x] = code[(a, b)]
    pts = [max((x for x in cells(lab) if lab[x] == l), key=lambda x: acc[x]) for l in range(len(spots) + 1)]
    return {'flow': fd, 'labels': lab, 'pts': pts}


def next_label(fd, L, x, bg):
    src = int(L[x])
    out = []
    for y in path_of(fd, x):
        out.append(y)
        l = int(L[y])
        if l != src and (bg is None or l != bg):
            return l, out
    return None, out


def pt(c):
    return tuple(int(v) for v in c)


def feats_of(pts, props=None):
    return [{'id': l, 'type': 'Feature', 'geometry': None, 'properties': dict({'bspot_id': l, 'cell_row': int(x[0]), 'cell_col': int(x[1])}, **(props[l] if props else {}))} for l, x in enumerate(pts)]


@check('C10')
class C10(object):
    """random acyclic direction rasters and label rasters up to 14x14 cells, some of up to 4200x7 cells, seeded"""

    def cases(self, g):
        k = 0
        while True:
            k += 1
            c = long_case(g) if k % 400 == 12 else network_case(g)
            c['bg'] = g.r.choice([0, 0, 0, None, None, int(c['labels'].max()), g.r.randint(-1, int(c['labels'].max()) + 3)])
            c['json'] = g.r.random() < .5
            yield c

    def check(self, c):
        from malstroem.algorithms import net
        fd, L, bg = c['flow'], c['labels'], c['bg']

        def one(be):
            for x in ([pt(y) for y in cells(fd)] if fd.size <= 40 else c['pts']):
                want, path = next_label(fd, L, x, bg)
                for geo in (True, False):
                    got, geom = net.next_downstream_label(fd, L, x, bg, geometry=geo)
                    if got != want:
                        return ['next label downstream of %s is %r instead of %r (geometry=%s)' % (x, got, want, geo)]
                    if geo and [pt(y) for y in geom] != path:
                        return ['path to the next label downstream of %s is %r instead of %r' % (x, [pt(y) for y in geom][:10], path[:10])]
            pts = feats_of(c['pts']) if c['json'] else c['pts']
            ns = net.pourpoint_network(fd, L, pts, bg)
            if [n['id'] for n in ns] != list(range(len(c['pts']))):
                return ['nodes %r of %d pour points' % ([n['id'] for n in ns], len(c['pts']))]
            for n in ns:
                want = next_label(fd, L, c['pts'][n['id']], bg)[0]
                if n['downstream_id'] != want:
                    return ['downstream node of pour point %d is %r instead of %r' % (n['id'], n['downstream_id'], want)]
                if pt(n['pix']) != tuple(c['pts'][n['id']]) or n['nodetype'] != 'pourpoint':
                    return ['node %r' % n]
            return []
        return one('py')


def network_problem(nodes, fd, L, pts, bg):
    ids = [n['id'] for n in nodes]
    if len(set(ids)) != len(ids):
        return 'ids %r are not unique' % ids
    by = {n['id']: n for n in nodes}
    pp = [n['id'] for n in nodes if n['nodetype'] == 'pourpoint']
    if sorted(pp) != list(range(len(pts))):
        return 'pour point nodes %r of %d pour points' % (sorted(pp), len(pts))
    top = int(L.max())
    for n in nodes:
        if n['nodetype'] not in ('pourpoint', 'junction'):
            return 'node type %r' % n['nodetype']
        if n['nodetype'] == 'junction' and n['id'] <= top:
            return 'junction has id %d, labels go up to %d' % (n['id'], top)
        if n['downstream_id'] is not None and n['downstream_id'] not in by:
            return 'downstream id %r of node %r does not exist' % (n['downstream_id'], n['id'])
        g = [pt(x) for x in n['geometry']]
        if not g or g[0] != pt(n['pix']):
            return 'node %r at %r starts with %r' % (n['id'], n['pix'], g[:1])
        if n['nodetype'] == 'pourpoint' and pt(n['pix']) != tuple(pts[n['id']]):
            return 'pour point %d is at %r instead of %r' % (n['id'], n['pix'], pts[n['id']])
    # following downstream ids
    chain = {}
    for n in nodes:
        seen, x = [], n
        while x is not None and x['id'] not in seen:
            seen.append(x['id'])
            x = by.get(x['downstream_id']) if x['downstream_id'] is not None else None
        if x is not None:
            return 'going downstream from node %r comes back to it' % n['id']
    for l, x in enumerate(pts):
        want, path = next_label(fd, L, tuple(x), bg)
        n = by[l]
        got = [pt(y) for y in n['geometry']]
        while n['downstream_id'] is not None and by[n['downstream_id']]['nodetype'] == 'junction':
            n = by[n['downstream_id']]
            g = [pt(y) for y in n['geometry']]
            if g[0] != got[-1]:
                return 'the geometry of node %r does not start where the one before it ends' % n['id']
            got += g[1:]
        if got != path:
            return 'joining the geometries from pour point %d gives %r instead of %r' % (l, got[:12], path[:12])
        if n['downstream_id'] != want:
            return 'pour point %d ends up at node %r instead of %r' % (l, n['downstream_id'], want)
    ups = {}
    for n in nodes:
        ups.setdefault(n['downstream_id'], []).append(n)
    for k, us in ups.items():
        for a, b in itertools.combinations(us, 2):
            ga, gb = [pt(y) for y in a['geometry']], [pt(y) for y in b['geometry']]
            if len(ga) > 2 and len(gb) > 2 and ga[-2:] == gb[-2:]:
                return 'nodes %r and %r both flow to %r and share their last two cells' % (a['id'], b['id'], k)
    for n in nodes:
        if n['nodetype'] == 'junction':
            us = ups.get(n['id'], [])
            if len(us) < 2:
                return 'junction %r has %d nodes upstream' % (n['id'], len(us))
            # first shared cell: the cells just before are not all the same
            before = {pt(u['geometry'][-2]) for u in us if len(u['geometry']) > 1}
            if len(before) < 2 and all(len(u['geometry']) > 1 for u in us):
                return 'the paths meeting at junction %r share the cell before it' % n['id']
    return None


@check('C11')
class C11(object):
    """random acyclic direction rasters and label rasters up to 14x14 cells, some of up to 4200x7 cells, seeded"""

    def cases(self, g):
        k = 0
        while True:
            k += 1
            c = long_case(g) if k % 400 == 12 else network_case(g, pour='most')
            c['json'] = g.r.random() < .5
            yield c

    def check(self, c):
        from malstroem.algorithms import net
        fd, L = c['flow'], c['labels']
        try:
            nodes = net.geometric_pourpoint_network(fd, L, feats_of(c['pts']) if c['json'] else c['pts'], 0)
        except RecursionError:
            raise
        m = network_problem(nodes, fd, L, c['pts'], 0)
        return [m] if m else []


@check('C12')
class C12(object):
    """networks of random direction and label rasters up to 14x14 cells, some of up to 4200x7 cells, seeded; stand-in readers and writers"""

    def cases(self, g):
        k = 0
        while True:
            k += 1
            c = long_case(g) if k % 400 == 12 else network_case(g, pour='most')
            r = g.r
            c['props'] = [{'bspot_area': r.uniform(0, 50), 'bspot_vol': r.uniform(0, 9), 'wshed_area': r.uniform(1, 99), 'bspot_dmax': 1.0} for _ in c['pts']]
            c['transform'] = transform(g)
            c['streams'] = r.random() < .8
            c['perm'] = r.random()
            yield c

    def check(self, c):
        from malstroem.streams import StreamTool
        from malstroem.algorithms import net
        fd, L, t = c['flow'], c['labels'], c['transform']
        pps = feats_of(c['pts'], c['props'])
        on, os_ = MemOut(), MemOut()
        StreamTool(MemVector(pps), MemRaster(L, t), MemRaster(fd, t), on, os_ if c['streams'] else None).process()
        if c['streams']:
            nodes = net.geometric_pourpoint_network(fd, L, [tuple(p) for p in c['pts']], 0)
        else:
            nodes = net.pourpoint_network(fd, L, [tuple(p) for p in c['pts']], 0)
        fs = on.only
        if [f['properties']['nodeid'] for f in fs] != [n['id'] for n in nodes]:
            return ['point features %r of nodes %r' % ([f['properties']['nodeid'] for f in fs], [n['id'] for n in nodes])]
        for f, n in zip(fs, nodes):
            p = f['properties']
            want = {'nodeid': n['id'], 'dstrnodeid': n['downstream_id'], 'nodetype': n['nodetype'], 'cell_row': n['pix'][0], 'cell_col': n['pix'][1]}
            if n['nodetype'] == 'pourpoint':
                want.update({k: c['props'][n['id']][k] for k in ('bspot_area', 'bspot_vol', 'wshed_area')})
                want['bspot_id'] = n['id']
            else:
                want.update(bspot_id=None, bspot_area=0.0, bspot_vol=0.0, wshed_area=0.0)
            for k, v in want.items():
                if p.get(k, 'missing') != v:
                    return ['node %r: %s is %r instead of %r' % (n['id'], k, p.get(k, 'missing'), v)]
            if f['geometry']['type'] != 'Point' or not nearpt(f['geometry']['coordinates'], world(t, n['pix'])):
                return ['node %r: point %r instead of %r' % (n['id'], f['geometry'], world(t, n['pix']))]
        if c['streams']:
            want = [n for n in nodes if n['geometry']]
            ls = os_.only
            if [f['properties']['nodeid'] for f in ls] != [n['id'] for n in want]:
                return ['line features %r of nodes %r' % ([f['properties']['nodeid'] for f in ls], [n['id'] for n in want])]
            for f, n in zip(ls, want):
                if f['properties']['dstrnodeid'] != n['downstream_id']:
                    return ['stream %r: downstream id %r instead of %r' % (n['id'], f['properties']['dstrnodeid'], n['downstream_id'])]
                cs = f['geometry']['coordinates']
                if f['geometry']['type'] != 'LineString' or len(cs) != len(n['geometry']) or not all(nearpt(a, world(t, b)) for a, b in zip(cs, n['geometry'])):
                    return ['stream %r: line %r' % (n['id'], cs[:4])]
        return []


# ------------------------------------------------------------------ C13
@check('C13')
class C13(object):
    """label and precipitation rasters up to 12x12 cells, seeded; stand-in readers and writers"""

    def cases(self, g):
        r = g.r
        while True:
            sh = g.shape()
            L = g.labels(sh, dtype=r.choice([np.int32, np.int32, np.int64, np.uint8]))
            n = int(L.max())
            nodes = [{'type': 'Feature', 'id': i, 'geometry': {'type': 'Point', 'coordinates': [1.0, i]}, 'properties': {
                'nodeid': i, 'nodetype': 'pourpoint' if i <= n else 'junction', 'dstrnodeid': r.choice([None, 0]), 'bspot_id': i if i <= n else None,
                'wshed_area': r.choice([0.0, 12.5, 1e6, 3.2]) if i <= n else 0.0, 'bspot_vol': 2.0, 'note': 'x%d' % i}} for i in range(n + 1 + r.randint(0, 4))]
            r.shuffle(nodes)
            P = g.dem(sh, dtype=r.choice([np.float32, np.float64, np.uint8, np.int32]))
            yield {'labels': g.order(L), 'precip': g.order(P), 'nodes': nodes, 'mm': r.choice([0, 0.5, 10, 25.4, 1000]), 'unit': r.choice(['mm', 'l', 'm3']), 'attr': r.choice(['inputv', 'rainv', 'wshed_vol']),
                   'transform': transform(g)}

    def check(self, c):
        from malstroem import rain
        t = c['transform']
        area = abs(t[1]) * abs(t[5])
        factor = {'mm': area / 1000.0, 'l': 1 / 1000.0, 'm3': 1.0}[c['unit']]
        L, P = c['labels'], c['precip']

        def volumes(kind, f):
            i = f['properties']['nodeid']
            if kind == 'uniform':
                return f['properties']['wshed_area'] * c['mm'] / 1000.0
            vs = [float(P[x]) for x in cells(L) if L[x] == i]
            return math.fsum(vs) * factor, 1e-6 * sum(abs(v) for v in vs) * factor

        def one(be):
            for kind in ('uniform', 'raster'):
                out = MemOut()
                if kind == 'uniform':
                    rain.SimpleVolumeTool(MemVector(c['nodes']), out, c['attr'], c['mm']).process()
                else:
                    rain.RasterVolumeTool(MemVector(c['nodes']), MemRaster(L, t), MemRaster(P, t), getattr(rain.Unit, c['unit']), out, c['attr']).process()
                got = out.only
                if [f['properties']['nodeid'] for f in got] != [f['properties']['nodeid'] for f in c['nodes']]:
                    return ['%s rain: nodes %r' % (kind, [f['properties']['nodeid'] for f in got])]
                for f, g0 in zip(got, c['nodes']):
                    want = volumes(kind, g0)
                    tol = 1e-9
                    if isinstance(want, tuple):
                        want, tol = want
                    v = f['properties'].get(c['attr'])
                    if v is None or not near(float(v), want, 1e-9, max(tol, 1e-12)):
                        return ['%s rain (%s): node %r gets %r instead of %r' % (kind, c['unit'], g0['properties']['nodeid'], v, want)]
                    p = dict(f['properties'])
                    del p[c['attr']]
                    q = dict(g0['properties'])
                    q.pop(c['attr'], None)
                    if p != q or f['geometry'] != g0['geometry']:
                        return ['%s rain: other attributes of node %r changed: %r' % (kind, g0['properties']['nodeid'], p)]
            return []
        return both(one)


# ------------------------------------------------------------------ C14
@check('C14')
class C14(object):
    """random forests up to 40 nodes, seeded, listed in random order"""

    def cases(self, g):
        r = g.r
        n = 0
        while True:
            n += 1
            k = r.randint(1, 8) if n % 4 else r.randint(10, 40)
            ids = r.sample(range(0, 3 * k), k)
            chain = r.random() < .3
            nodes = []
            for i, x in enumerate(ids):
                up = ids[i - 1] if chain and i else (r.choice(ids[:i]) if i and r.random() < .8 else None)
                cap = r.choice([0, 0, 1, 2, 0.5, 3.25, 100.0, 7.3])
                nodes.append({'nodeid': x, 'dstrnodeid': up, 'wshed_area': r.choice([0.0, 5.0, 8.2]), 'bspot_vol': cap, 'inputv': r.choice([0, 0, 1, 2.5, 0.25, 10.0, cap, 3.3]), 'nodetype': 'pourpoint'})
            r.shuffle(nodes)
            yield {'nodes': nodes}

    def check(self, c):
        from malstroem.network import Network, FinalStateCalculator
        nodes = c['nodes']
        by = {n['nodeid']: n for n in nodes}
        if len(by) != len(nodes):
            raise Skip()
        ups = {}
        for n in nodes:
            ups.setdefault(n['dstrnodeid'], []).append(n['nodeid'])
        spill, stored, recv = {}, {}, {}

        def run(i):
            stack = [(i, False)]
            while stack:
                x, done = stack.pop()
                if not done:
                    stack.append((x, True))
                    stack += [(u, False) for u in ups.get(x, ())]
                else:
                    t = by[x]['inputv'] + sum(spill[u] for u in ups.get(x, ()))
                    recv[x] = t
                    stored[x] = min(t, by[x]['bspot_vol'])
                    spill[x] = max(0, t - by[x]['bspot_vol'])
        for n in nodes:
            if n['dstrnodeid'] is None:
                run(n['nodeid'])
        out = []

        def compare(how, res):
            if sorted(res) != sorted(by):
                out.append('%s: results for nodes %r of %r' % (how, sorted(res), sorted(by)))
                return
            for i, e in res.items():
                cap = by[i]['bspot_vol']
                if not near(e['v'], stored[i]) or not near(e['spillv'], spill[i]):
                    out.append('%s: node %r stores %r and spills %r instead of %r and %r' % (how, i, e['v'], e['spillv'], stored[i], spill[i]))
                    return
                if e['spillv'] > 0 and not near(e['v'], cap):
                    out.append('%s: node %r spills though it is not full' % (how, i))
                if (cap == 0) != (e['pctv'] is None) or cap and not near(e['pctv'], 100 * stored[i] / cap, 1e-9, 1e-7):
                    out.append('%s: node %r is %r percent full' % (how, i, e['pctv']))
            a = math.fsum(e['v'] for e in res.values()) + math.fsum(res[i]['spillv'] for i in ups.get(None, ()))
            b = math.fsum(n['inputv'] for n in nodes)
            if not near(a, b, 1e-9, 1e-7):
                out.append('%s: %r stored and leaving, %r put in' % (how, a, b))
        for rev in (False, True):
            net = Network()
            net.add_nodes([dict(n) for n in (reversed(nodes) if rev else nodes)])
            ev = net.rain_event('inputv')
            if len(ev) != len({e['nodeid'] for e in ev}):
                out.append('a node has two results')
            compare('rain event', {e['nodeid']: e for e in ev})
            again = net.rain_event('inputv')
            compare('second rain event', {e['nodeid']: e for e in again})
            net = Network()
            mine = [dict(n, inputv=(n['inputv'] * 7 + 3) % 5, other=n['inputv']) for n in nodes]
            net.add_nodes(mine)
            net.rain_event('inputv')
            for n in mine:
                n['inputv'] = n['other']
            compare('rain event after the volumes changed', {e['nodeid']: e for e in net.rain_event('inputv')})
            compare('rain event with another volume attribute', {e['nodeid']: e for e in net.rain_event('other')})
        o = MemOut()
        feats = [{'type': 'Feature', 'id': n['nodeid'], 'geometry': None, 'properties': dict(n, note='n%s' % n['nodeid'])} for n in nodes]
        FinalStateCalculator(MemVector(feats), 'inputv', o).process()
        got = o.only
        if len(got) != len(nodes):
            out.append('%d features written for %d nodes' % (len(got), len(nodes)))
        compare('final state', {f['properties']['nodeid']: f['properties'] for f in got})
        for f in got:
            n = by[f['properties']['nodeid']]
            if any(f['properties'].get(k, 'missing') != v for k, v in n.items()) or f['properties'].get('note') != 'n%s' % n['nodeid']:
                out.append('attributes of node %r changed' % n['nodeid'])
                break
        return out


# ------------------------------------------------------------------ C15 / C16 / C17
@check('C15')
class C15(object):
    """terrain and label rasters up to 10x10 cells and bin widths from 0.01 to 5, seeded; stand-in readers and writers"""

    def cases(self, g):
        r = g.r
        while True:
            sh = g.shape(hi=10)
            L = g.labels(sh, dtype=r.choice([np.int32, np.int32, np.int64, np.uint8]))
            n = int(L.max())
            m = np.zeros_like(L)
            k = 0
            for l in range(1, n + 1):
                if (L == l).any():
                    k += 1
                    m[L == l] = k
            res = r.choice([0.1, 0.25, 0.5, 1.0, 1.0, 2.0, 5.0, 0.05, 0.3])
            dem = g.dem(sh, dtype=r.choice([np.float32, np.float64]))
            if r.random() < .3:
                dem = (np.round(dem / res) * res).astype(dem.dtype)
            if np.abs(dem).max() / res > 1e6:
                res = 1000.0 * 2 ** math.ceil(math.log2(np.abs(dem).max() / 1e6 + 1))
            yield {'dem': g.order(dem), 'labels': g.order(m), 'res': float(res), 'transform': transform(g), 'direct': r.random() < .5}

    def check(self, c):
        from malstroem import hyps
        dem, L, res, t = c['dem'], c['labels'], c['res'], c['transform']
        n = int(L.max())

        def one(be):
            out = []
            if c['direct']:
                got = dict(hyps.bluespot_hypsometry_stats(L, dem, res))
                flat = {l: hyps._hypsometrystats_to_flatdict(h) for l, h in got.items()}
                props = None
            else:
                o = MemOut()
                pps = [{'type': 'Feature', 'id': l, 'geometry': None, 'properties': {'bspot_id': l, 'note': 'n%d' % l}} for l in range(n + 1)]
                hyps.bluespot_hypsometry_io(MemRaster(L, t), MemRaster(dem, t), MemVector(pps), res, o)
                props = {f['properties']['bspot_id']: json.loads(json.dumps(f['properties'], default=float)) for f in o.only}
                flat = props
                got = {l: hyps.hypsometrystats_from_flatdict(p) for l, p in props.items()}
                for l, p in props.items():
                    if p.get('note') != 'n%d' % l or not near(p['cell_area'], abs(t[1]) * abs(t[5])):
                        out.append('attributes of label %d: %r' % (l, p))
            if sorted(got) != list(range(n + 1)):
                return ['histograms of labels %r, there are %d' % (sorted(got), n)]
            for l in range(1, n + 1):
                vs = [float(dem[x]) for x in cells(L) if L[x] == l]
                h = got[l]
                b, cnt = h.zhistogram.bins, [int(x) for x in h.zhistogram.counts]
                tag = 'label %d, elevations %r, bin width %r: ' % (l, sorted(vs)[:6], res)
                if h.zmin != min(vs) or h.zmax != max(vs):
                    out.append(tag + 'lowest and highest %r %r' % (h.zmin, h.zmax))
                if b.resolution != res or len(cnt) != b.num_bins or not near(b.upper_bound - b.lower_bound, res * b.num_bins, 1e-9, 1e-9):
                    out.append(tag + 'bins %r' % (b,))
                elif abs(b.lower_bound / res - round(b.lower_bound / res)) > 1e-6:
                    out.append(tag + 'lower bound %r' % b.lower_bound)
                elif not (b.lower_bound <= min(vs) and b.upper_bound >= max(vs)):
                    out.append(tag + 'bins from %r to %r' % (b.lower_bound, b.upper_bound))
                elif sum(cnt) != len(vs):
                    out.append(tag + 'counts %r for %d cells' % (cnt, len(vs)))
                else:
                    want = [0] * len(cnt)
                    soft = 0
                    for v in vs:
                        q = (v - b.lower_bound) / res
                        if abs(q - round(q)) < 1e-6 + 1e-6 * (abs(v) + 1) / res:
                            soft += 1
                        want[min(len(cnt) - 1, max(0, int(math.floor(q + 1e-9))))] += 1
                    if sum(abs(x - y) for x, y in zip(want, cnt)) > 2 * soft:
                        out.append(tag + 'counts %r instead of %r' % (cnt, want))
                back = hyps.hypsometrystats_from_flatdict(json.loads(json.dumps(flat[l], default=float)))
                if [int(x) for x in back.zhistogram.counts] != cnt or tuple(float(x) for x in back.zhistogram.bins) != tuple(float(x) for x in b) or (back.zmin, back.zmax) != (h.zmin, h.zmax):
                    out.append(tag + 'reading the attributes gives %r' % (back,))
            return out[:3]
        return both(one)


@check('C16')
class C16(object):
    """bluespots of random terrain up to 8x8 cells, through the hypsometry tool, with stored volumes from empty to full; stand-in readers and writers"""

    def cases(self, g):
        r = g.r
        while True:
            sh = g.shape(hi=8)
            d = g.dem(sh, dtype=np.float32)
            if np.abs(d).max() > 1e5:
                continue
            res = r.choice([0.1, 0.25, 0.5, 1.0, 2.0])
            if (d.max() - d.min()) / res > 2000:
                res = float((d.max() - d.min()) / 100)
            yield {'dem': d, 'res': res, 'area': r.choice([1.0, 0.16, 4.0, 100.0]), 'fracs': sorted([0.0, 1.0, 0.9998, 0.99995, r.random(), r.random(), r.random()])}

    def check(self, c):
        from malstroem import hyps, approx
        dem = c['dem']
        filled = ref_fill(dem)
        L, n = regions(filled - dem != 0)
        if not n:
            raise Skip()
        L = L.astype(np.int32)
        w = math.sqrt(c['area'])
        t = (0, w, 0, 0, 0, -w)
        area = abs(t[1]) * abs(t[5])
        pps = []
        for l in range(n + 1):
            ds = [float(filled[x] - dem[x]) for x in cells(L) if L[x] == l]
            pps.append({'type': 'Feature', 'id': l, 'geometry': None, 'properties': {'bspot_id': l, 'bspot_dmax': max(ds) if ds else -INFTY, 'bspot_vol': math.fsum(ds) * area}})
        o = MemOut()
        hyps.bluespot_hypsometry_io(MemRaster(L, t), MemRaster(dem, t), MemVector(pps), c['res'], o)
        hf = o.only

        def one(be):
            out = []
            last = {}
            for fr in c['fracs']:
                fin = [{'type': 'Feature', 'id': l, 'geometry': None, 'properties': {'nodeid': l, 'nodetype': 'pourpoint', 'bspot_id': l, 'v': fr * p['properties']['bspot_vol'], 'note': 'n%d' % l}} for l, p in enumerate(pps)]
                fin.append({'type': 'Feature', 'id': n + 1, 'geometry': None, 'properties': {'nodeid': n + 1, 'nodetype': 'junction', 'bspot_id': None, 'v': 0}})
                fin.reverse()
                w = MemOut()
                approx.approx_water_level_io(MemVector(fin), MemVector(hf), w)
                got = {f['properties']['nodeid']: f['properties'] for f in w.only}
                if sorted(got) != list(range(n + 1)) or len(w.only) != n + 1:
                    return ['levels for nodes %r of %d pour points and a junction' % (sorted(got), n + 1)]
                for l in range(n + 1):
                    p = got[l]
                    zs = [float(dem[x]) for x in cells(L) if L[x] == l]
                    cap, dm = pps[l]['properties']['bspot_vol'], pps[l]['properties']['bspot_dmax']
                    z = p['approx_z']
                    tag = 'label %d, %r of %r m3, elevations %r: level %r ' % (l, p['v'], cap, sorted(zs)[:6], z)
                    if not zs:
                        continue
                    if not near(p['approx_dmax'], z - min(zs), 1e-9, 1e-9):
                        out.append(tag + 'but maximum depth %r' % p['approx_dmax'])
                    if cap == 0 or fr > 0.9999:
                        if not near(z, min(zs) + dm, 1e-9, 1e-9):
                            out.append(tag + 'instead of bottom plus maximum depth %r' % (min(zs) + dm))
                    else:
                        if not min(zs) - 1e-9 <= z <= max(zs) + 1e-9:
                            out.append(tag + 'is outside the elevations of the bluespot')
                        if fr == 0 and z != min(zs):
                            out.append(tag + 'for an empty bluespot')
                        want = self.level(p['v'], hf[l]['properties'], area, cap)
                        if not near(z, want, 1e-9, 1e-7):
                            out.append(tag + 'instead of %r' % want)
                        if fr < 0.9999:
                            if l in last and z < last[l] - 1e-9:
                                out.append(tag + 'sank from %r' % last[l])
                            last[l] = z
                    if out:
                        return out
            return out
        return one('py')

    def level(self, v, p, area, cap):
        cnt = [int(x) for x in p['hist_counts'].split('|')] if p['hist_num_bins'] else []
        res, lo = float(p['hist_resolution']), float(p['hist_lower_bound'])
        vol, z = [], []
        acc = below = 0.0
        for i, k in enumerate(cnt):
            acc += area * res * below
            below += k
            vol.append(acc)
            z.append(lo + res * (i + .5))
        V = [0.0] + vol[1:-1] + [cap]
        Z = [float(p['zmin'])] + z[1:-1] + [float(p['zmax'])]
        return float(np.interp([v], V, Z)[0])


@check('C17')
class C17(object):
    """label rasters, levels and terrains up to 12x12 cells, seeded; array and file variants"""

    def cases(self, g):
        r = g.r
        while True:
            sh = g.shape()
            L = g.labels(sh, dtype=r.choice([np.int32, np.int32, np.int64, np.uint8]))
            n = int(L.max())
            dem = g.dem(sh, dtype=r.choice([np.float32, np.float64]))
            if r.random() < .2:
                dem = dem - 5000
            lev = {0: r.choice([0.0, 12.5, 1e6])}
            for l in range(1, n + 1):
                own = dem[L == l]
                lev[l] = float(r.choice(list(own))) if own.size and r.random() < .4 else float(r.uniform(dem.min() - 1, dem.max() + 1))
            if not n and r.random() < .5:
                lev[1] = 3.0
            bg = r.choice([0, 0, n, r.randint(0, n)])
            yield {'dem': g.order(dem), 'labels': g.order(L), 'levels': lev, 'which': r.choice(['both', 'depths', 'labels']), 'bg': bg}

    def check(self, c):
        from malstroem import approx
        dem, L, lev, bg = c['dem'], c['labels'], c['levels'], c['bg']
        wd = np.zeros(L.shape)
        wl = np.zeros(L.shape, int)
        for x in cells(L):
            l = int(L[x])
            wl[x] = bg
            if l != bg:
                wd[x] = max(0.0, lev[l] - float(dem[x]))
                wl[x] = l if not lev[l] < float(dem[x]) else bg
        out = []
        keep = dem.copy()
        gl, gd = approx.approx_bluespots(L.copy(), dict(lev), dem, bg) if bg else approx.approx_bluespots(L.copy(), dict(lev), dem)

        def cmp(how, gd, gl):
            if gd is not None and (gd.shape != wd.shape or not np.allclose(gd, wd, 1e-9, 1e-6) or ((gd == 0) != (wd == 0)).any()):
                out.append('%s: depths %r instead of %r' % (how, gd.tolist()[:2], wd.tolist()[:2]))
            if gl is not None and not same(gl, wl):
                out.append('%s: labels: %s' % (how, where(gl, wl)))
        cmp('arrays', gd, gl)
        od, ol = MemOut(), MemOut()
        feats = [{'type': 'Feature', 'properties': {'nodeid': l, 'bspot_id': l, 'nodetype': 'pourpoint', 'approx_z': z}} for l, z in lev.items()]
        feats.append({'type': 'Feature', 'properties': {'nodeid': 99, 'bspot_id': None, 'nodetype': 'junction', 'approx_z': None}})
        feats.reverse()
        approx.approx_bluespots_io(MemRaster(L), MemVector(feats), MemRaster(dem), od if c['which'] != 'labels' else None, ol if c['which'] != 'depths' else None, **({'background_label': bg} if bg else {}))
        cmp('files', od.only if c['which'] != 'labels' else None, ol.only if c['which'] != 'depths' else None)
        if not same(dem, keep):
            out.append('the terrain was modified')
        return out


# ------------------------------------------------------------------ C18
@check('C18')
class C18(object):
    """all operations with a native version on rasters up to 12x12 cells, both back ends, and sequences of enabling and disabling, seeded"""
    NAMES = [('fill', '_fill_terrain'), ('fill', '_fill_terrain_no_flats'), ('flow', 'trace_accumulated_flow'), ('flow', 'accumulated_flow'), ('flow', '_terrain_flow'),
             ('flow', 'assign_watersheds_upstream'), ('label', 'label_stats'), ('label', 'label_min_index'), ('label', 'label_data')]

    def cases(self, g):
        r = g.r
        yield {'seq': ['d', 'd', 'e', 'e', 'd', 'e', 'd', 'd', 'e']}
        n = 0
        while True:
            n += 1
            if n % 6 == 0:
                yield {'seq': [r.choice('ed') for _ in range(r.randint(1, 8))]}
                continue
            sh = (r.randint(8, 12), r.randint(8, 12)) if n % 9 == 0 else g.shape()
            L = g.labels(sh, dtype=r.choice([np.int32, np.int32, np.int64, np.uint8, np.int16]))
            dem = g.dem(sh, dtype=r.choice([np.float32, np.float32, np.float64]))
            un = 0
            mx = int(L.max())
            yield {'dem': g.order(dem), 'labels': g.order(L), 'flow': g.order(g.flow_tree(sh, nodir=r.choice([0, .05]), edges_out='force')), 'short': r.choice([0.0, 1e-3, 0.5]), 'outward': r.random() < .5,
                   'n': r.choice([None, mx, mx + 1]) if mx else None, 'bg': r.choice([0, 0, 1, mx])}

    def check(self, c):
        from malstroem.algorithms import speedups, fill, flow, label
        mods = {'fill': fill, 'flow': flow, 'label': label}
        if 'seq' in c:
            return self.toggling(c['seq'], speedups, mods)
        dem, L, fd = c['dem'], c['labels'], c['flow']
        res = {}
        for be in ('py', 'cy'):
            with Backend(be):
                o = {}
                o['fill_terrain'] = fill.fill_terrain(dem.copy(order='K'))
                o['fill_terrain_no_flats'] = fill.fill_terrain_no_flats(dem.copy(order='K'), c['short'], c['short'] * 2 ** .5)
                o['terrain_flowdirection'] = flow.terrain_flowdirection(dem.astype(np.float64), edges_flow_outward=c['outward'])
                o['accumulated_flow'] = flow.accumulated_flow(fd.copy(order='K'))
                w = L.copy(order='K')
                flow.watersheds_from_labels(fd, w, 0)
                o['watersheds_from_labels'] = w
                st = label.label_stats(dem, L, c['n'])
                for k in ('min', 'max', 'sum', 'count'):
                    o['label_stats ' + k] = np.array(st[k], float)
                mi = label.label_min_index(dem, L, c['n'])
                for k in ('value', 'row', 'col'):
                    o['label_min_index ' + k] = np.array(mi[k], float)
                o['label_data'] = [[float(v) for v in l] for l in label.label_data(dem, L, c['n'], c['bg'])]
                res[be] = o
        out = []
        for k in res['py']:
            p, q = res['py'][k], res['cy'][k]
            if isinstance(p, list):
                if p != q:
                    out.append('%s: native %r, pure Python %r' % (k, q[:4], p[:4]))
            elif k == 'label_stats sum':
                if p.shape != q.shape or not np.allclose(p, q, 1e-9, 1e-9):
                    out.append('%s: native %s' % (k, where(q, p)))
            elif not same(q, p):
                out.append('%s: native %s (pure Python)' % (k, where(q, p)))
        return out

    def toggling(self, seq, sp, mods):
        out = []
        sp.disable()
        py = {n: getattr(mods[n[0]], n[1]) for n in self.NAMES}
        sp.enable()
        cy = {n: getattr(mods[n[0]], n[1]) for n in self.NAMES}
        sp.disable()
        for n in self.NAMES:
            if getattr(py[n], '__module__', '') != 'malstroem.algorithms.' + n[0]:
                out.append('%s.%s is %r when disabled' % (n + (py[n],)))
            if 'speedups' not in str(getattr(cy[n], '__module__', '')):
                out.append('%s.%s is %r when enabled' % (n + (cy[n],)))
        state = False
        for k, s in enumerate(seq):
            (sp.enable if s == 'e' else sp.disable)()
            state = s == 'e'
            if bool(sp.enabled) != state:
                out.append('after %r: enabled is %r' % (''.join(seq[:k + 1]), sp.enabled))
            for n in self.NAMES:
                if getattr(mods[n[0]], n[1]) is not (cy if state else py)[n]:
                    out.append('after %r: %s.%s is %r' % ((''.join(seq[:k + 1]),) + n + (getattr(mods[n[0]], n[1]),)))
                    break
            if out:
                break
        sp.disable()
        return out


# ------------------------------------------------------------------ C19
@check('C19')
class C19(object):
    """arrays up to 12x12 cells of all integer and floating types through GeoTIFF files, with and without nodata and substitution, seeded"""

    def cases(self, g):
        r = g.r
        while True:
            sh = (r.randint(1, 12), r.randint(1, 12))
            dt = r.choice([np.float32, np.float64, np.int32, np.uint32, np.int16, np.uint16, np.uint8, np.int64, np.uint64, np.int8, np.float16, np.bool_, np.int64, np.int64])
            k = np.dtype(dt).kind
            if k == 'b':
                a = np.array([[r.random() < .5 for _ in range(sh[1])] for _ in range(sh[0])])
            elif k == 'f':
                a = np.array([[r.choice([0.0, 1.5, -3.25, r.uniform(-100, 100), 999.0, -999.0]) for _ in range(sh[1])] for _ in range(sh[0])]).astype(dt)
                if r.random() < .2:
                    a[r.randrange(sh[0]), r.randrange(sh[1])] = r.choice([np.nan, np.inf, -np.inf])
            else:
                ii = np.iinfo(dt)
                lo, hi = r.choice([(0, 5), (0, 255), (0, 256), (-1, 255), (0, 65535), (0, 65536), (-32768, 32767), (-32769, 5), (-3, 32768), (-1, 40000), (-100, 65535), (-40000, 10), (-1, 300), (0, 70000), (-2**31, 2**31 - 1), (0, 2**32 - 1), (0, 2**32), (-1, 2**31), (-2**31 - 1, 0), (-2**40, 2**40)])
                lo, hi = max(lo, ii.min), min(hi, ii.max)
                a = np.array([[r.choice([lo, hi, r.randint(lo, hi), max(lo, min(hi, 0))]) for _ in range(sh[1])] for _ in range(sh[0])], dtype=dt)
            nod = r.choice([None, None, 0, 1, -999, 255, float('nan'), 7.5]) if k == 'f' else r.choice([None, None, 0, 1, 5, 255] + ([-999, -1] if k == 'i' else []))
            if nod is not None and nod == nod and r.random() < .8 and k not in 'b' and np.array(nod).astype(dt) == nod:
                a[r.randrange(sh[0]), r.randrange(sh[1])] = nod
                if r.random() < .4 and k != 'u' and np.dtype(dt).itemsize > 2:       # beyond the tolerance of the comparison
                    a[r.randrange(sh[0]), r.randrange(sh[1])] = (nod * (1 + r.choice([3e-5, -1e-4, 1e-3])) if nod else r.choice([1e-6, -1e-7, 1e-4])) if k == 'f' else nod + r.choice([-1, 1])
            sub = r.choice([None, 3, 200, 0, 12, -999] if k in 'fi' and np.dtype(dt).itemsize > 1 else [None, 3, 200, 0, 12])
            yield {'data': g.order(a) if a.size else a, 'nodata': 'nan' if nod is not None and nod != nod else nod, 'subst': sub, 'transform': transform(g)}

    def check(self, c):
        from malstroem import io
        a, t = c['data'], c['transform']
        nod = float('nan') if c['nodata'] == 'nan' else c['nodata']
        if a.dtype.kind == 'b':
            fits = True
        elif a.dtype.kind in 'iu':
            lo, hi = int(a.min()), int(a.max())
            kept = a.dtype in [np.dtype(x) for x in (np.int32, np.uint32, np.int16, np.uint16, np.uint8)]
            fits = kept or (0 <= lo and hi <= 2**32 - 1) or (lo >= -2**31 and hi <= 2**31 - 1)
        else:
            fits = True
        if nod is not None and a.dtype.kind in 'biu':
            # nodata outside the stored type is another question
            if nod != int(nod) or not 0 <= nod <= 255 and not (a.dtype in (np.dtype(np.int32), np.dtype(np.int16)) and -999 <= nod <= 255):
                nod = None
        if nod is not None and a.dtype == np.float16:
            nod = None
        out = []
        with Files() as fs:
            p = fs.path('a.tif')
            crs = CRS()
            try:
                io.RasterWriter(p, t, crs, nod).write(a)
                done = True
            except Exception as e:
                done = False
                if fits:
                    return ['writing %s in [%r, %r] fails: %s: %s' % (a.dtype, a.min(), a.max(), type(e).__name__, e)]
            if not fits:
                if done:
                    return ['%s with values up to %r is written' % (a.dtype, a.max())]
                return []
            r = io.RasterReader(p)
            b = r.read()
            if not same(b.astype(np.float64), a.astype(np.float64)):
                out.append('%s array read back: %s' % (a.dtype, where(b.astype(np.float64), a.astype(np.float64))))
            if a.dtype in [np.dtype(x) for x in (np.float64, np.float32, np.int32, np.uint32, np.int16, np.uint16, np.uint8)] and b.dtype != a.dtype:
                out.append('%s array is stored as %s' % (a.dtype, b.dtype))
            if tuple(r.transform) != tuple(t):
                out.append('transform %r instead of %r' % (r.transform, t))
            from osgeo import osr
            s1, s2 = osr.SpatialReference(), osr.SpatialReference()
            s1.ImportFromWkt(r.crs)
            s2.ImportFromWkt(crs)
            if not s1.IsSame(s2):
                out.append('coordinate system %r' % r.crs[:60])
            if not (r.nodata == nod or nod is not None and r.nodata is not None and nod != nod and r.nodata != r.nodata):
                out.append('nodata %r instead of %r' % (r.nodata, nod))
            if tuple(r.shape) != a.shape or tuple(r.resolution) != (abs(t[5]), abs(t[1])):
                out.append('shape %r, resolution %r' % (r.shape, r.resolution))
            sub = c['subst']
            if sub is not None and not (b.dtype.kind == 'u' and sub < 0):
                want = b.copy()
                if nod is not None:
                    m = np.isnan(want) if nod != nod else want == nod
                    near_ = np.zeros(want.shape, bool) if nod != nod else (~m) & np.isclose(want, nod)
                    want[m] = sub
                    want[near_] = 0
                got = io.RasterReader(p, nodatasubst=sub).read()
                if nod is not None and nod == nod:
                    got[near_] = 0
                if got.dtype != b.dtype or not same(got, want):
                    out.append('substitution of nodata %r by %r: %s' % (nod, sub, where(got, want)))
        return out


# ------------------------------------------------------------------ C20
@check('C20')
class C20(object):
    """DEM stage on rasters up to 12x12 cells; now and then the complete command against the single commands, on real files; seeded"""

    def cases(self, g):
        r = g.r
        n = 0
        while True:
            n += 1
            sh = (r.randint(6, 12), r.randint(6, 12)) if n % 3 == 0 else g.shape()
            dem = g.dem(sh, dtype=r.choice([np.float32, np.float32, np.float64, np.int16, np.int32]) if n % 8 == 1 else r.choice([np.float32, np.float64]))
            full = n % 8 == 1
            nod = None
            if full and r.random() < .4:
                nod = float(dem[0, 0]) if r.random() < .5 else -7.0
            yield {'dem': dem, 'transform': transform(g, square=True), 'accum': r.random() < .7, 'vector': r.random() < .4, 'full': full, 'filter': r.choice([None, 'volume > 1', 'area > 2.5 and maxdepth > 0.5']),
                   'mm': r.choice([0.0, 10.0, 300.0]), 'res': r.choice([0.1, 0.5, 1.0]), 'nodata': nod, 'refuse': r.choice(['file', 'missing', 'dir', 'dot'])}

    def check(self, c):
        return both(lambda be: self.stage(c)) + (self.full(c) if c['full'] else [])

    def stage(self, c):
        from malstroem.dem import DemTool
        from malstroem.algorithms import fill, flow
        dem, t = c['dem'], c['transform']
        w = [MemOut() for _ in range(4)]
        try:
            DemTool(MemRaster(dem, t), w[0], w[1], w[2], w[3] if c['accum'] else None).process()
        except TypeError:
            if dem.dtype.kind in 'iu':
                return []        # not float: refused by the in-memory stage
            raise
        f32 = dem.astype(np.float32)
        filled, fd, depths = w[0].only, w[1].only, w[2].only
        o = []
        want = ref_fill(f32)
        if not same(filled, want):
            o.append('filled: ' + where(filled, want))
        if not same(depths, filled - f32):
            o.append('depths: ' + where(depths, filled - f32))
        if (depths < 0).any():
            o.append('negative depth')
        s, dg = fill.minimum_safe_short_and_diag(f32)
        wfd = flow.terrain_flowdirection(fill.fill_terrain_no_flats(f32, s, dg), edges_flow_outward=True)
        if not same(fd, wfd):
            o.append('flow directions: ' + where(fd, wfd))
        if c['accum']:
            wa = ref_accum(fd)
            if not same(w[3].only, wa):
                o.append('accumulated flow: ' + where(w[3].only, wa))
        return o

    def full(self, c):
        from malstroem.scripts.complete import process_all
        from malstroem.scripts import dem as sd, bluespot as sb, stream as ss, initvolume as si, finalstate as sf, hyps as sh
        dem, t = c['dem'], c['transform']
        if np.abs(dem.astype(float)).max() > 1e5:
            return []
        out = []
        with Files() as fs:
            fs.raster('dem.tif', dem, t, c['nodata'])
            P = fs.path
            # refusal
            os.mkdir(P('busy'))
            if c['refuse'] == 'file':
                open(P('busy/keep.txt'), 'w').write('x')
            elif c['refuse'] == 'dot':
                open(P('busy/.keep'), 'w').write('x')
            elif c['refuse'] == 'dir':
                os.mkdir(P('busy/sub'))
            else:
                os.rmdir(P('busy'))
            before = sorted(os.walk(P('busy')))
            try:
                rc = process_all.callback(P('dem.tif'), P('busy'), c['accum'], c['filter'], c['mm'], c['res'], c['vector'])
            except Exception:
                rc = 'exception'
            if not rc or sorted(os.walk(P('busy'))) != before:
                return ['output directory (%s) is not refused: returns %r, files %r' % (c['refuse'], rc, [x for x in os.walk(P('busy'))])]
            os.mkdir(P('all'))
            process_all.callback(P('dem.tif'), P('all'), c['accum'], c['filter'], c['mm'], c['res'], c['vector'])
            # the single commands, each fed by the outputs of the earlier ones
            os.mkdir(P('one'))
            S = lambda n: P('one/' + n)
            db = S('one.gpkg')
            sd.process_filled.callback(P('dem.tif'), S('filled.tif'))
            sd.process_depths.callback(P('dem.tif'), S('filled.tif'), S('bs_depths.tif'))
            sd.process_flowdir.callback(P('dem.tif'), S('flowdir.tif'))
            if c['accum']:
                sd.process_accum.callback(S('flowdir.tif'), S('accum.tif'))
            sb.process_bspots.callback(S('bs_depths.tif'), S('bluespots.tif'), c['filter'])
            sb.process_wsheds.callback(S('bluespots.tif'), S('flowdir.tif'), S('watersheds.tif'))
            sb.process_pourpoints.callback(S('bluespots.tif'), S('bs_depths.tif'), S('watersheds.tif'), None if c['accum'] else P('dem.tif'), S('accum.tif') if c['accum'] else None, db, 'gpkg', 'pourpoints', (), ())
            ss.process_network.callback(S('bluespots.tif'), S('flowdir.tif'), db, 'pourpoints', db, 'nodes', 'streams', 'gpkg', (), ())
            si.process_volumes.callback(db, 'nodes', c['mm'], None, None, None, db, 'initvolumes', 'inputv', 'gpkg', (), ())
            sf.process_net.callback(db, 'initvolumes', 'inputv', db, 'finalstate', 'gpkg', (), ())
            sh.process_hypsometry.callback(S('bluespots.tif'), P('dem.tif'), db, 'pourpoints', c['res'], db, 'hypsometry', 'gpkg', (), ())
            sf.process_finallevels.callback(db, 'finalstate', db, 'hypsometry', db, 'finallevels', 'gpkg', (), ())
            sf.process_bluespots.callback(S('bluespots.tif'), P('dem.tif'), db, 'finallevels', S('finaldepths.tif'), S('finalbluespots.tif'))
            rs = ['filled.tif', 'bs_depths.tif', 'flowdir.tif', 'bluespots.tif', 'watersheds.tif', 'finaldepths.tif', 'finalbluespots.tif'] + (['accum.tif'] if c['accum'] else [])
            for n in rs:
                if not os.path.exists(P('all/' + n)):
                    out.append('complete did not write ' + n)
                    continue
                a, b = fs.read('all/' + n), fs.read('one/' + n)
                if a.shape != b.shape or not (same(a, b) or n == 'finaldepths.tif' and np.allclose(a, b, 1e-9, 1e-9)):
                    out.append('%s of complete and of the single command: %s' % (n, where(a, b)))
            for n in ('pourpoints', 'nodes', 'streams', 'initvolumes', 'finalstate', 'hypsometry', 'finallevels'):
                a, b = fs.layer('all/malstroem.gpkg', n), fs.layer('one/one.gpkg', n)
                strip = lambda fs_: [json.dumps({'g': f['geometry'], 'p': {k: (float('%.9g' % v) if isinstance(v, float) else v) for k, v in f['properties'].items()}}, sort_keys=True) for f in fs_]
                if a is None or b is None:
                    out.append('layer %s: complete %s, single command %s' % (n, 'missing' if a is None else len(a), 'missing' if b is None else len(b)))
                elif sorted(strip(a)) != sorted(strip(b)):
                    d = next((x for x in zip(sorted(strip(a)), sorted(strip(b))) if x[0] != x[1]), ('%d features' % len(a), '%d features' % len(b)))
                    out.append('layer %s of complete and of the single command: %s and %s' % ((n,) + d))
        return out[:3]
