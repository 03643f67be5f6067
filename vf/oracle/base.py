"""Executable contracts: the postconditions evaluated on concrete runs of the real code, both back ends.
They replay what a failed obligation claims, on inputs found by seeded search; they never replace an obligation."""
import ast, importlib, json, math, os, re, sys, time, random, traceback, tempfile, shutil, signal
import numpy as np


class Skip(Exception):
    pass


# ------------------------------------------------------------------ serialisation
def enc(x):
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return {'__rec__': [[n, x.dtype[n].str] for n in x.dtype.names], 'data': [list(map(float, r)) for r in x.ravel().tolist()]}
        return {'__nd__': x.dtype.str, 'shape': list(x.shape), 'order': 'F' if x.flags.f_contiguous and not x.flags.c_contiguous else 'C',
                'strided': bool(not x.flags.c_contiguous and not x.flags.f_contiguous),
                'data': [float(v) if x.dtype.kind == 'f' else int(v) for v in x.ravel()]}
    if isinstance(x, np.generic):
        return {'__np__': x.dtype.str, 'v': float(x) if x.dtype.kind == 'f' else int(x)}
    if isinstance(x, dict):
        return {'__d__': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {'__t__': [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return {'__s__': [enc(v) for v in sorted(x)]}
    return x


def dec(x):
    if isinstance(x, dict):
        if '__nd__' in x:
            a = np.array(x['data'], dtype=x['__nd__']).reshape(x['shape'])
            if x.get('strided'):
                b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
                b[tuple(slice(None, None, 2) for _ in a.shape)] = a
                return b[tuple(slice(None, None, 2) for _ in a.shape)]
            return np.asfortranarray(a) if x.get('order') == 'F' else a
        if '__np__' in x:
            return np.dtype(x['__np__']).type(x['v'])
        if '__d__' in x:
            return {dec(k): dec(v) for k, v in x['__d__']}
        if '__t__' in x:
            return tuple(dec(v) for v in x['__t__'])
        if '__s__' in x:
            return set(dec(v) for v in x['__s__'])
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


# ------------------------------------------------------------------ generators
NEIGH = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]   # by direction code


class Gen(object):
    def __init__(self, seed, root):
        self.r = random.Random(seed)
        self.root = root
        self.lits = literals(root)

    def shape(self, lo=2, hi=7):
        k = self.r.random()
        if k < 0.12:
            return (2, self.r.randint(2, 9))
        if k < 0.24:
            return (self.r.randint(2, 9), 2)
        if k < 0.32:
            return (3, self.r.randint(2, 9))
        if k < 0.4:
            return (self.r.randint(2, 9), 3)
        if k < 0.404:
            n = self.r.choice([70, 140, 270])
            return (n, self.r.randint(2, 4)) if self.r.random() < .5 else (self.r.randint(2, 4), n)
        return (self.r.randint(lo, hi), self.r.randint(lo, hi))

    def dem(self, shape=None, dtype=np.float32, integral=None):
        r = self.r
        h, w = shape or self.shape()
        k = r.random()
        if k < 0.35:
            a = [[r.randint(0, r.choice([1, 2, 3, 5, 9])) for _ in range(w)] for _ in range(h)]
        elif k < 0.5:
            a = [[r.uniform(-5, 5) for _ in range(w)] for _ in range(h)]
        elif k < 0.6:
            s = r.choice([1e-3, 1, 100, 1e4, 1e6])
            a = [[s * r.uniform(0.2, 1) for _ in range(w)] for _ in range(h)]
        elif k < 0.7:     # bowl: rim high, floor with sub-pits
            a = [[(6 if i in (0, h - 1) or j in (0, w - 1) else r.randint(0, 5)) for j in range(w)] for i in range(h)]
            if r.random() < .7:
                i, j = r.choice([(0, r.randrange(w)), (h - 1, r.randrange(w)), (r.randrange(h), 0), (r.randrange(h), w - 1)])
                a[i][j] = r.randint(-2, 5)
        elif k < 0.78:     # maze
            a = [[9 if r.random() < .5 else 0 for _ in range(w)] for _ in range(h)]
            for i in range(h):
                for j in range(w):
                    if r.random() < .1:
                        a[i][j] = r.randint(1, 8)
        elif k < 0.84:
            a = [[i * r.choice([0, 1]) + j + r.choice([0, 0, -3]) for j in range(w)] for i in range(h)]
        elif k < 0.9:
            v = r.choice([0, 1, -1, 7.5, 1e5, -1e5])
            a = [[v] * w for _ in range(h)]
            if r.random() < .5:
                a[r.randrange(h)][r.randrange(w)] += r.choice([-1, 1, 0.5])
        elif k < 0.95 and self.lits:
            c = r.choice(self.lits)
            a = [[c + r.choice([0, 0, 1, -1, .5]) for _ in range(w)] for _ in range(h)]
        else:
            m = r.choice([1, 10, 1000])
            a = [[-m * r.random() for _ in range(w)] for _ in range(h)]
        a = np.array(a, dtype=np.float64)
        if np.dtype(dtype).kind == 'f' and r.random() < .15:
            # neighbouring numbers of the type: differences of a few units in the last place
            base = dtype(r.choice([1, 100, 0.1, -7.3, 1e6]))
            u = float(np.spacing(base)) * r.choice([1, 1, 3, 64])
            a = float(base) + np.rint(a) * u
        elif np.dtype(dtype).kind == 'f' and r.random() < .05:
            a = a * r.choice([1e-20, 1e-9, 1e12, 1e30])
        if integral or (integral is None and np.dtype(dtype).kind in 'iu'):
            a = np.round(a)
        if np.dtype(dtype).kind == 'u':
            a = a - min(a.min(), 0)
        return a.astype(dtype)

    def order(self, a):
        """same values, another memory layout"""
        k = self.r.random()
        if k < 0.15:
            return np.asfortranarray(a)
        if k < 0.3:
            b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            return b[tuple(slice(None, None, 2) for _ in a.shape)]
        return a

    def labels(self, shape, n=None, dtype=np.int32, regions=False):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5]) if n is None else n
        h, w = shape
        p = r.random()
        a = np.zeros(shape, dtype=dtype)
        if r.random() < .5:
            for i in range(h):
                for j in range(w):
                    a[i, j] = r.randint(1, n) if n and r.random() < p else 0
        else:
            for l in range(1, n + 1):
                i0, j0 = r.randrange(h), r.randrange(w)
                a[i0:i0 + r.randint(1, 3), j0:j0 + r.randint(1, 3)] = l
        return a

    def wide(self, a, keep=(0,)):
        """the labels renamed to values spread over their type"""
        r = self.r
        hi = min(int(np.iinfo(a.dtype).max), 2 ** 62)
        new = {}
        out = a.copy()
        for v in np.unique(a):
            if int(v) in keep:
                continue
            x = None
            while x is None or x in new.values() or x in keep:
                x = r.choice([hi - r.randint(0, 3), hi // 2 + r.randint(0, 9), hi // 3 + r.randint(0, 9), r.randint(1, 9), min(hi, 2 ** r.randint(1, 61) + r.randint(-1, 3))])
            new[int(v)] = x
            out[a == v] = x
        return out

    def flow_tree(self, shape, nodir=0.0, edges_out=True):
        """acyclic direction raster: every cell flows to a cell of a smaller random rank or off the raster"""
        h, w = shape
        r = self.r
        rank = {}
        cells = [(i, j) for i in range(h) for j in range(w)]
        style = r.random()
        key = {c: (r.random() if style < .6 else (c[0] + 3 * r.random() if style < .8 else min(c[0], c[1], h - 1 - c[0], w - 1 - c[1]) + r.random())) for c in cells}
        out = np.full(shape, 8, dtype=np.uint8)
        for (i, j) in cells:
            opts = []
            for d, (di, dj) in enumerate(NEIGH):
                a, b = i + di, j + dj
                if 0 <= a < h and 0 <= b < w:
                    if key[a, b] < key[i, j]:
                        opts.append((d, 1))
                else:
                    opts.append((d, 3))
            ed = i in (0, h - 1) or j in (0, w - 1)
            if ed and edges_out == 'force':
                opts = [o for o in opts if o[1] == 3]
            if r.random() < nodir and not (ed and edges_out == 'force'):
                continue
            if opts:
                out[i, j] = r.choice(opts)[0]
        if r.random() < .15:
            self.wind(out, edges_out == 'force')
        return out

    def wind(self, out, force):
        """long winding paths through (nearly) all cells"""
        r = self.r
        h, w = out.shape
        o = 1 if force else 0
        if r.random() < .5:       # to and fro
            way = [(i, j) for i in range(o, h - o) for j in (range(o, w - o) if (i - o) % 2 == 0 else reversed(range(o, w - o)))]
        else:                     # inwards
            way, t, l, b, e = [], o, o, h - 1 - o, w - 1 - o
            while t <= b and l <= e:
                way += [(t, j) for j in range(l, e + 1)] + [(i, e) for i in range(t + 1, b + 1)]
                if t < b and l < e:
                    way += [(b, j) for j in range(e - 1, l - 1, -1)] + [(i, l) for i in range(b - 1, t, -1)]
                t, l, b, e = t + 1, l + 1, b - 1, e - 1
        if r.random() < .5 and not force:
            way.reverse()
        for k in range(1, len(way)):
            (i, j), (a, b) = way[k], way[k - 1]
            out[i, j] = NEIGH.index((a - i, b - j))
        if way:
            i, j = way[0]
            off = [d for d, (di, dj) in enumerate(NEIGH) if not (0 <= i + di < h and 0 <= j + dj < w)]
            out[i, j] = off[0] if off else (6 if force else 8)


def literals(root):
    out = set()
    for base, _, fs in os.walk(os.path.join(root, 'malstroem')):
        for f in fs:
            if f.endswith(('.py', '.pyx')):
                s = open(os.path.join(base, f), encoding='utf-8').read()
                for m in re.findall(r'(?<![\w.])-?\d+\.?\d*(?:e-?\d+)?', s):
                    try:
                        v = float(m)
                    except ValueError:
                        continue
                    if abs(v) < 1e7:
                        out.add(v)
    return sorted(out)


class Backend(object):
    def __init__(self, name):
        self.name = name
        from malstroem.algorithms import speedups
        self.sp = speedups

    def __enter__(self):
        (self.sp.enable if self.name == 'cy' else self.sp.disable)()
        return self

    def __exit__(self, *a):
        self.sp.disable()


class Limit(object):
    """gives up on code that does not terminate"""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise TimeoutError('no result within %d s' % self.s)
        signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)


def near(a, b, rel=1e-9, ab=1e-9):
    if a == b:
        return True
    try:
        return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))
    except TypeError:
        return False


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def where(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    bad = ~((a == b) | ((a != a) & (b != b)))
    i = tuple(int(x) for x in np.argwhere(bad)[0])
    return 'cell %s is %r instead of %r' % (i, a[i].item(), b[i].item())
