"""Vocabulary shared by the contracts: cells, directions, downstream neighbours."""
import math
import z3
from vf.vals import *
from vf.core import LoopSpec, fresh, freshf
from vf.contract import *

r, c, r2, c2 = z3.Ints('r c r2 c2')
I, B = z3.IntSort(), z3.BoolSort()
NODIR = 8
# row and column step per direction code: up, up-right, right, down-right, down, down-left, left, up-left
STEP = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]
SQRT2 = z3.RealVal(Fraction(math.sqrt(2)))


def drow(d):
    return z3.If(z3.Or(d == 0, d == 1, d == 7), -1, z3.If(z3.Or(d == 3, d == 4, d == 5), 1, z3.IntVal(0)))


def dcol(d):
    return z3.If(z3.Or(d == 5, d == 6, d == 7), -1, z3.If(z3.Or(d == 1, d == 2, d == 3), 1, z3.IntVal(0)))


def inside(r, c, H, W):
    return z3.And(r >= 0, r < H, c >= 0, c < W)


def interior(r, c, H, W):
    return z3.And(r >= 1, r < H - 1, c >= 1, c < W - 1)


def edge(r, c, H, W):
    return z3.And(inside(r, c, H, W), z3.Or(r == 0, r == H - 1, c == 0, c == W - 1))


def near(r, c, r2, c2):
    return z3.And(r2 >= r - 1, r2 <= r + 1, c2 >= c - 1, c2 <= c + 1, z3.Or(r != r2, c != c2))


HERE = z3.Function('here', I, I, B)       # marks the cells at which cell-wise facts are to be instantiated
HERE_AX = ('mark', z3.ForAll([r, c], HERE(r, c), patterns=[HERE(r, c)]))


AT = z3.Function('at', I, B)              # likewise the steps at which facts about a path are to be instantiated
AT_AX = z3.ForAll([r], AT(r), patterns=[AT(r)])


def at_cells(H, W, body, extra=None):
    """for every cell (r, c) of the raster: body; instantiated at marked cells only"""
    return z3.ForAll([r, c], z3.Implies(z3.And(HERE(r, c), inside(r, c, H, W)), body), patterns=[HERE(r, c)])


def some(v):
    """(condition that v is None, value otherwise)"""
    return (v.isnone, v.v) if isinstance(v, Opt) else (z3.BoolVal(v is None), v)


def cellopts(cc):
    """(name, condition none, row, column) of the local variables modified by the loop that hold a cell or None"""
    out = []
    for f, env in cc.st.envs.items():
        if str(f).startswith('mod:'):
            continue
        for nm, v in env.items():
            if not cc.entered(f, nm):
                continue
            none, t = some(v)
            if isinstance(t, tuple) and len(t) in (2, 3) and all(is_num(x) and kind(x) in INTK for x in t):
                out.append((nm, none, iterm(t[0]), iterm(t[1])))
            if isinstance(t, StructV) and 'r' in t.f and 'c' in t.f and is_num(t.f['r']) and is_num(t.f['c']):
                out.append((nm, none, iterm(t.f['r']), iterm(t.f['c'])))
    return out


def cellvars(cc):
    """(name, row, column) of the local variables that hold a cell"""
    out = []
    for f, env in cc.st.envs.items():
        if str(f).startswith('mod:'):
            continue
        for nm, v in env.items():
            if isinstance(v, Opt):
                v = v.v
            if isinstance(v, PUndef):
                continue
            if isinstance(v, tuple) and len(v) in (2, 3) and all(is_num(x) and kind(x) in INTK for x in v):
                out.append((nm, iterm(v[0]), iterm(v[1])))
            if isinstance(v, StructV) and 'r' in v.f and 'c' in v.f and is_num(v.f['r']) and is_num(v.f['c']):
                out.append((nm, iterm(v.f['r']), iterm(v.f['c'])))
    return out


def marks(cc):
    return [('mark %s' % nm, HERE(a, b)) for nm, a, b in cellvars(cc)]


def arrays(cc, nd=2, ks=None):
    """contents of the arrays modified by the loop"""
    return [(i, cc.st.heap[i]) for i in sorted(cc.mod_heap) if isinstance(cc.st.heap.get(i), ArrC) and len(cc.st.heap[i].shape) == nd
            and not isinstance(cc.st.heap[i].fn, dict) and (ks is None or cc.st.heap[i].dt.k in ks)]
