"""Executable contracts per property (see base.py)."""
import heapq, itertools, math, os, json, tempfile, shutil
import numpy as np
from .base import *

CHECKS = {}


def check(pid):
    def f(cls):
        CHECKS[pid] = cls()
        return cls
    return f


def both(f):
    out = []
    for be in ('py', 'cy'):
        with Backend(be):
            out += ['[%s] %s' % ({'py': 'pure Python', 'cy': 'native'}[be], m) for m in f(be)]
    return out


# ------------------------------------------------------------------ C01 / C02
def ref_fill(dem, short=0.0, diag=0.0):
    """least surface: Dijkstra over max(terrain, neighbour + drop), in double precision"""
    h, w = dem.shape
    S = np.full((h, w), np.inf)
    q = []
    done = np.zeros((h, w), bool)
    for i in range(h):
        for j in range(w):
            if i in (0, h - 1) or j in (0, w - 1):
                S[i, j] = float(dem[i, j])
                heapq.heappush(q, (S[i, j], i, j))
    while q:
        v, i, j = heapq.heappop(q)
        if done[i, j]:
            continue
        done[i, j] = True
        for di, dj in NEIGH:
            a, b = i + di, j + dj
            if 0 < a < h - 1 and 0 < b < w - 1:
                nv = max(float(dem[a, b]), v + (diag if di and dj else short))
                if nv < S[a, b]:
                    S[a, b] = nv
                    heapq.heappush(q, (nv, a, b))
    return S


@check('C01')
class C01(object):
    """DEMs up to 9x9 cells, seeded; exhaustive over 3x3..4x4 rasters with 2 levels in part"""

    def cases(self, g):
        for bits in range(0, 512, 7):
            yield {'dem': np.array([(bits >> i & 1) for i in range(9)], np.float32).reshape(3, 3)}
        n = 0
        while True:
            n += 1
            k = g.r.random()
            dt = np.float32 if k < .8 else g.r.choice([np.float64, np.int16, np.int32, np.uint8])
            sh = (g.r.randint(8, 14), g.r.randint(8, 14)) if n % 11 == 0 else None
            d = g.order(g.dem(sh, dtype=dt))
            if g.r.random() < .04 and d.dtype == np.float32:
                d = d.copy()
                d[g.r.randrange(d.shape[0]), g.r.randrange(d.shape[1])] = g.r.choice([np.inf, -np.inf])
            yield {'dem': d}

    def check(self, c):
        from malstroem.algorithms import fill
        dem = c['dem']
        want = ref_fill(dem.astype(np.float32))

        def one(be):
            d = dem.copy(order='K') if dem.flags.c_contiguous or dem.flags.f_contiguous else dem
            keep = d.copy()
            got = fill.fill_terrain(d)
            out = []
            if not same(got, want):
                out.append('filled terrain: ' + where(got, want))
            if not same(d, keep):
                out.append('the input raster was modified')
            return out
        return both(one)


@check('C02')
class C02(object):
    """DEMs up to 14x14 cells, seeded, with chosen and with automatic minimum drops"""

    def cases(self, g):
        n = 0
        while True:
            n += 1
            dt = np.float32 if g.r.random() < .85 else g.r.choice([np.float64, np.int16, np.int32])
            sh = (g.r.randint(8, 14), g.r.randint(8, 14)) if n % 11 == 0 else None
            d = g.order(g.dem(sh, dtype=dt))
            auto = g.r.random() < .5
            s = g.r.choice([0.0, 0.001, 0.25, 1.0, 1e-9, 3.7])
            dg = g.r.choice([0.0, s, s * 2 ** .5, 2 * s, s / 2])
            yield {'dem': d, 'auto': auto, 'short': s, 'diag': dg}

    def check(self, c):
        from malstroem.algorithms import fill
        dem = c['dem']
        f32 = dem.astype(np.float32)
        out = []
        short, diag = c['short'], c['diag']
        if c['auto']:
            short, diag = fill.minimum_safe_short_and_diag(dem)
            if not short > 0:
                out.append('automatic minimum drop is %r' % short)
            if not near(diag, short * math.sqrt(2), 1e-6, 0) and short > 1e-300:
                out.append('automatic corner drop %r is not sqrt(2) times %r' % (diag, short))
            M = float(np.abs(f32).max())
            for v in (f32.max(), f32.min()) + ((M * .6, M * 1.2, M * 1.9, -M * 1.7) if M < 1e38 else ()):
                if not (np.float64(v) + short > np.float64(v) and np.float64(v) + diag > np.float64(v)):
                    out.append('automatic minimum drop %r is lost at elevation %r' % (short, v))
        want = ref_fill(f32, float(short), float(diag))

        def one(be):
            d = dem.copy(order='K') if dem.flags.c_contiguous or dem.flags.f_contiguous else dem
            keep = d.copy()
            got = fill.fill_terrain_no_flats(d, short, diag)
            o = []
            if not same(got, want):
                o.append('flat-free surface: ' + where(got, want))
            if not same(d, keep):
                o.append('the input raster was modified')
            return o
        return out + both(one)


# ------------------------------------------------------------------ C03
@check('C03')
class C03(object):
    """elevation rasters up to 14x14 cells, seeded; ties, plateaus, pits, large and negative elevations"""

    def cases(self, g):
        n = 0
        while True:
            n += 1
            sh = (g.r.randint(8, 14), g.r.randint(8, 14)) if n % 11 == 0 else None
            yield {'dem': g.order(g.dem(sh, dtype=np.float64)), 'outward': g.r.random() < .6}

    def check(self, c):
        from malstroem.algorithms import flow
        T = c['dem']
        h, w = T.shape
        S2 = math.sqrt(2)
        want = np.full((h, w), 8, np.uint8)
        for i in range(1, h - 1):
            for j in range(1, w - 1):
                best, code = 0.0, 8
                for d, (di, dj) in enumerate(NEIGH):
                    s = float(T[i, j]) - float(T[i + di, j + dj])
                    if di and dj:
                        s /= S2
                    if s > best:
                        best, code = s, d
                want[i, j] = code
        if c['outward']:
            for i in range(h):
                for j in range(w):
                    up, dn, lf, rt = i == 0, i == h - 1, j == 0, j == w - 1
                    if up or dn or lf or rt:
                        want[i, j] = {(1, 0, 1, 0): 7, (1, 0, 0, 1): 1, (0, 1, 1, 0): 5, (0, 1, 0, 1): 3, (1, 0, 0, 0): 0, (0, 1, 0, 0): 4, (0, 0, 1, 0): 6, (0, 0, 0, 1): 2}[up, dn, lf, rt]

        def one(be):
            keep = T.copy()
            got = flow.terrain_flowdirection(T, edges_flow_outward=c['outward'])
            o = []
            if not same(got, want):
                o.append('flow direction: ' + where(got, want))
            if not same(T, keep):
                o.append('the input raster was modified')
            return o
        out = both(one)
        for d in range(9):
            got = flow.direction_to_delta(d)
            if (tuple(got) if got is not None else None) != (NEIGH[d] if d < 8 else None):
                out.append('step of direction code %d is %r' % (d, got))
        return out


def down(D, x):
    """next cell, None when off the raster or without direction"""
    d = int(D[x])
    if d == 8:
        return None
    y = x[0] + NEIGH[d][0], x[1] + NEIGH[d][1]
    return y if 0 <= y[0] < D.shape[0] and 0 <= y[1] < D.shape[1] else None


def path_of(D, x):
    out = []
    while x is not None:
        out.append(x)
        if len(out) > D.size:
            raise Skip()
        x = down(D, x)
    return out


# ------------------------------------------------------------------ C04
@check('C04')
class C04(object):
    """DEMs up to 14x14 cells, seeded, through the flat-free surface; random direction rasters for tracing"""

    def cases(self, g):
        n = 0
        while True:
            n += 1
            sh = (g.r.randint(8, 14), g.r.randint(8, 14)) if n % 9 == 0 else None
            yield {'dem': g.dem(sh, dtype=np.float32), 'flow': g.order(g.flow_tree(g.shape(), nodir=g.r.choice([0, .1]), edges_out=g.r.choice([True, 'force'])))}

    def check(self, c):
        from malstroem.algorithms import fill, flow
        dem, fd = c['dem'], c['flow']

        def one(be):
            short, diag = fill.minimum_safe_short_and_diag(dem)
            D = flow.terrain_flowdirection(fill.fill_terrain_no_flats(dem, short, diag), edges_flow_outward=True)
            h, w = D.shape
            o = []
            for x in itertools.product(range(h), range(w)):
                seen = set()
                y = x
                while y is not None and y not in seen:
                    seen.add(y)
                    last, y = y, down(D, y)
                if y is not None:
                    o.append('the path from %s comes back to %s' % (x, y))
                elif D[last] == 8:
                    o.append('the path from %s ends at %s, which has no direction' % (x, last))
                elif last[0] not in (0, h - 1) and last[1] not in (0, w - 1):
                    o.append('the path from %s leaves at %s, which is not an edge cell' % (x, last))
                if o:
                    break
            for x in itertools.product(range(fd.shape[0]), range(fd.shape[1])):
                got = [tuple(int(v) for v in y) for y in flow.trace_downstream(fd, x)]
                if got != path_of(fd, x):
                    o.append('cells traced from %s are %s instead of %s' % (x, got[:12], path_of(fd, x)[:12]))
                    break
            return o
        return both(one)


# ------------------------------------------------------------------ C05
def ref_accum(D):
    a = np.zeros(D.shape)
    for x in itertools.product(range(D.shape[0]), range(D.shape[1])):
        for y in path_of(D, x):
            a[y] += 1
    return a


@check('C05')
class C05(object):
    """random acyclic direction rasters up to 14x14 cells, with cells without direction, seeded"""

    def cases(self, g):
        n = 0
        while True:
            n += 1
            sh = (g.r.randint(8, 14), g.r.randint(8, 14)) if n % 9 == 0 else g.shape()
            yield {'flow': g.order(g.flow_tree(sh, nodir=g.r.choice([0, 0, .05, .3]), edges_out=g.r.choice([True, 'force'])))}

    def check(self, c):
        from malstroem.algorithms import flow
        D = c['flow']
        want = ref_accum(D)

        def one(be):
            keep = D.copy()
            got = flow.accumulated_flow(D)
            o = []
            if not same(got, want):
                o.append('accumulated flow: ' + where(got, want))
            if not same(D, keep):
                o.append('the input raster was modified')
            return o
        return both(one)


# ------------------------------------------------------------------ C06
@check('C06')
class C06(object):
    """random acyclic direction rasters up to 14x14 cells whose edge cells flow off the raster; labels of several integer types and values for unlabelled"""

    def cases(self, g):
        n = 0
        while True:
            n += 1
            sh = (g.r.randint(8, 14), g.r.randint(8, 14)) if n % 9 == 0 else g.shape()
            dt = g.r.choice([np.int32, np.int32, np.int64, np.uint8, np.int16, np.uint16, np.uint32])
            un = g.r.choice([0, 0, 0, -1, 255, 7]) if np.dtype(dt).kind == 'i' else g.r.choice([0, 0, 255, 7])
            L = g.labels(sh, dtype=dt)
            if g.r.random() < .3:
                L = g.wide(L, (0, un))
            if un:
                L[L == 0] = un
                if g.r.random() < .4:
                    L[g.r.randrange(sh[0]), g.r.randrange(sh[1])] = 0
            yield {'flow': g.order(g.flow_tree(sh, nodir=g.r.choice([0, 0, .05]), edges_out='force')), 'labels': g.order(L), 'un': un}

    def check(self, c):
        from malstroem.algorithms import flow
        D, L, un = c['flow'], c['labels'], c['un']
        want = L.copy()
        for x in itertools.product(range(D.shape[0]), range(D.shape[1])):
            if L[x] == un:
                p = path_of(D, x)
                if D[p[-1]] == 8:
                    continue          # does not drain off the raster: stays as it is
                for y in p:
                    if L[y] != un:
                        want[x] = L[y]
                        break

        def one(be):
            lab = L.copy(order='K') if L.flags.c_contiguous or L.flags.f_contiguous else dec(enc(L))
            keep = D.copy()
            flow.watersheds_from_labels(D, lab, un)
            o = []
            if not same(lab, want):
                o.append('watersheds: ' + where(lab, want))
            if not same(D, keep):
                o.append('the direction raster was modified')
            return o
        return both(one)
