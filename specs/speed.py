"""Contract of malstroem.algorithms.speedups (C18): the switching. That both versions of every operation compute the same is
what their common contracts say (specs.PROPS['C18'])."""
from .stand import *
from vf.prove import find
from vf.core import Exec, State
from vf.lib import Lib

A = 'malstroem.algorithms.'
Q = A + 'speedups.'
NATIVE = {('fill', '_fill_terrain'): '_fill._fill_terrain', ('fill', '_fill_terrain_no_flats'): '_fill._fill_terrain_no_flats',
          ('flow', 'trace_accumulated_flow'): '_flow.trace_accumulated_flow', ('flow', 'accumulated_flow'): '_flow.accumulated_flow',
          ('flow', '_terrain_flow'): '_flow.terrain_flow', ('flow', 'assign_watersheds_upstream'): '_flow.assign_watersheds_upstream',
          ('label', 'label_stats'): '_label.label_stats', ('label', 'label_min_index'): '_label.label_min_index', ('label', 'label_data'): '_label.label_data'}


class Toggle(Contract):
    """The reachable states of the module are: off (every operation the pure Python one) and on (every operation the native one);
    enable leads from both to on, disable from both to off, and without the native modules both change nothing. All globals of the
    modules concerned belong to the state, so this holds for every sequence of calls."""
    quals = (Q + 'enable', Q + 'disable')
    params = ()

    def accepts(self, ex, st, a):
        return False

    def verify(self, ex, fn, qual):
        ex.topname = 'sequences of enable and disable'
        mods = ['fill', 'flow', 'label']
        # the operations as their modules define them
        orig = {}
        fresh = Exec(ex.repo, Lib(), {})
        for m in mods:
            fresh.load_module(A + m)
            orig[m] = {n: v for n, v in fresh.modstate.envs['mod:' + A + m].items()}
        natives = {k: find(ex, Q + v) for k, v in NATIVE.items()}
        self.en, self.di = find(ex, Q + 'enable'), find(ex, Q + 'disable')
        fr = ex.load_module(A + 'speedups')
        env = ex.modstate.envs[fr.fid]
        imported = ex.modstate.copy()
        off = imported.copy()

        def state(st):
            return {x: dict(st.envs['mod:' + A + x]) for x in mods + ['speedups']}

        def same(a, b):
            x, y = state(a), state(b)
            for m in x:
                for k in dict.fromkeys(list(x[m]) + list(y[m])):
                    if k not in x[m] or k not in y[m] or not self.same(ex, a, b, x[m][k], y[m][k]):
                        return False
            return True

        def isa(st, v, f):
            return isinstance(v, Fn) and v.node is f.node

        def is_on(st):
            s = state(st)
            return all(isa(st, s[m][n], f) for (m, n), f in natives.items()) and s['speedups'].get('enabled') is True

        def is_off(st):
            s = state(st)
            return all(n in s[m] and self.same(ex, st, st, s[m][n], v) for m in mods for n, v in orig[m].items()) and s['speedups'].get('enabled') is False

        def others(st):
            """everything but the native operations is as its module defines it"""
            s = state(st)
            return all(n in s[m] and (self.same(ex, st, st, s[m][n], v) or (m, n) in natives) for m in mods for n, v in orig[m].items())

        def call(st, f):
            x = st.copy()
            ex.call_fn(f, [], {}, x, None)
            return x
        st = State()

        def ob(name, b):
            ex.obl(st, name, z3.BoolVal(bool(b)), node=fn.node)
        ob('importing the module with the native modules at hand enables them', is_on(imported) and others(imported))
        a = call(imported, self.di)
        ob('disable restores the original operations', is_off(a))
        b = call(a, self.en)
        ob('enable selects the native operation for each of the nine, and nothing else changes', is_on(b) and others(b))
        ob('enabling again leads to the state after import', same(b, imported))
        ob('enable when enabled changes nothing', same(call(b, self.en), b))
        ob('disable when disabled changes nothing', same(call(a, self.di), a))
        ob('disable after enable leads back to the state after disable', same(call(b, self.di), a))
        # no native modules: the state before enabling, with nothing available
        n = a.copy()
        n.envs[fr.fid] = dict(n.envs[fr.fid], available=False)
        for f, nm in ((self.en, 'enable'), (self.di, 'disable')):
            ob('%s without native modules changes nothing' % nm, same(call(n, f), n) and is_off(n))
        ex.vac = st
        ex.final = st

    def same(self, ex, sa, sb, x, y):
        if isinstance(x, Ref) and isinstance(y, Ref):
            a, b = sa.heap.get(x.id), sb.heap.get(y.id)
            if isinstance(a, DictC) and isinstance(b, DictC):
                return list(a.d) == list(b.d) and all(self.same(ex, sa, sb, a.d[k][1], b.d[k][1]) for k in a.d)
            return ex.same(a, b)
        if isinstance(x, Fn) and isinstance(y, Fn):
            return x.node is y.node
        if type(x) is type(y) and isinstance(x, (BI, ModV, Cls, DT, BadV)):
            return str(getattr(x, 'name', None) or getattr(x, 'qual', None) or x.k if not isinstance(x, BadV) else x.why) == str(getattr(y, 'name', None) or getattr(y, 'qual', None) or y.k if not isinstance(y, BadV) else y.why)
        try:
            return x is y or ex.same(x, y)
        except Exception:
            return False


CONTRACTS = [Toggle()]
