"""Verify one function of /repo against its contract: python3-vt -m vf.prove SPEC.CONTRACT QUALNAME OUT.json [TIMEOUT]"""
import sys, os, json, time, importlib, traceback
sys.setrecursionlimit(20000)
import z3
from .vals import *
from .front import Repo
from .lib import Lib
from .core import Exec, Obl
from . import solve


def all_contracts():
    import specs
    cs = {}
    for name in specs.MODULES:
        m = importlib.import_module('specs.' + name)
        for ct in m.CONTRACTS:
            for q in ct.quals:
                cs[q] = ct
    return cs


def find(ex, qual):
    mn = qual
    while ex.repo.path(mn) is None:
        if '.' not in mn:
            raise Unsupported('module of %s not found' % qual)
        mn = mn.rsplit('.', 1)[0]
    fr = ex.load_module(mn)
    env = ex.modstate.envs[fr.fid]
    parts = qual[len(mn) + 1:].split('.')
    fn = env.get(parts[0])
    for p in parts[1:]:
        fn = fn.methods.get(p) if isinstance(fn, Cls) else None
    if not isinstance(fn, Fn):
        raise Unsupported('function %s not found' % qual)
    return fn


def contract(name):
    """SPEC.CONTRACT or SPEC.CONTRACT@VARIANT"""
    name, _, variant = name.partition('@')
    mod, cname = name.split('.')
    m = importlib.import_module('specs.' + mod)
    for ct in m.CONTRACTS:
        if type(ct).__name__ == cname:
            if variant:
                ct = type(ct)()
                ct.variant = variant
            return ct
    raise KeyError(name)


def prove(cname, qual, root='/repo', timeout=20, jobs=3, keep=None):
    t0 = time.time()
    ct = contract(cname)
    out = {'contract': cname, 'function': qual, 'obligations': [], 'error': None}
    try:
        ex = Exec(Repo(root), Lib(ct.glue() if hasattr(ct, 'glue') else None), ct.table() if hasattr(ct, 'table') else all_contracts(), fp=ct.fp)
        if hasattr(ct, 'prepare'):
            ct.prepare(ex)
        if qual == '-':
            ct.prove(ex)            # lemma over contracts, no code
        else:
            ct.verify(ex, find(ex, qual), qual)
    except Unsupported as e:
        out['error'] = 'outside the verified subset: %s (line %s)' % (e, ex.curline if 'ex' in dir() else '?')
        out['time'] = time.time() - t0
        if os.environ.get('VF_TRACE'):
            traceback.print_exc()
        return out
    except RecursionError as e:
        out['error'] = 'recursion limit'
        return out
    except Exception as e:
        out['error'] = 'engine: %s: %s (line %s)' % (type(e).__name__, e, getattr(locals().get('ex'), 'curline', '?'))
        if os.environ.get('VF_TRACE'):
            traceback.print_exc()
        out['time'] = time.time() - t0
        return out
    out['vcgen'] = time.time() - t0
    rs = solve.discharge(ex.obls, jobs=jobs, timeout=timeout)
    for o, r in zip(ex.obls, rs):
        out['obligations'].append({'name': o.name, 'line': o.line, 'kind': o.kind, 'status': r.status, 'by': r.by, 'time': round(r.time, 2),
                                   'output': r.out[:2000] if r.status != 'unsat' else ''})
        if keep and r.status != 'unsat':
            for j, (h, g) in enumerate(solve.split(toB(o.goal))):
                p = os.path.join(keep, '%s_%s_%d_%d.smt2' % (cname, qual.split('.')[-1], len(out['obligations']), j))
                open(p, 'w').write('; %s\n' % o.name + solve.smt2(list(o.pc) + list(h), g))
    # reachability: the precondition and the end of the function must not be contradictory
    vac = []
    for nm, st in (('precondition', getattr(ex, 'vac', None)), ('end of function', getattr(ex, 'final', None))):
        if st is None:
            continue
        p = os.path.join('/tmp', 'vf-vac-%d.smt2' % os.getpid())
        with open(p, 'w') as f:
            f.write(solve.smt2(st.facts(), None))
        r, o, dt = solve.run_solver(['z3-new', '-T:3'], p, 3)
        os.unlink(p)
        vac.append((nm, r))
    out['reach'] = vac
    if any(r == 'unsat' for _, r in vac):
        out['error'] = 'vacuous: %s' % vac
    if not out['obligations'] and not getattr(ct, 'trivial', False):
        out['error'] = 'no obligations generated'
    out['inlined'] = sorted(ex.inlined)
    out['contracts_used'] = sorted(ex.used_contracts)
    out['library'] = sorted(ex.lib.used)
    out['time'] = time.time() - t0
    out['stats'] = ex.stats
    return out


if __name__ == '__main__':
    a = sys.argv[1:]
    r = prove(a[0], a[1], root=os.environ.get('VF_ROOT', '/repo'), timeout=int(a[3]) if len(a) > 3 else 20, jobs=int(os.environ.get('VF_JOBS', '3')),
              keep=os.environ.get('VF_KEEP'))
    if a[2] == '-':
        bad = [o for o in r['obligations'] if o['status'] != 'unsat']
        print(r['function'], 'error: %s' % r['error'] if r['error'] else '', '%d/%d' % (len(r['obligations']) - len(bad), len(r['obligations'])), 'vcgen %.1f total %.1f' % (r.get('vcgen', 0), r['time']), r.get('reach'))
        for o in r['obligations']:
            if o['status'] != 'unsat' or o['time'] > 5:
                print('   ', o['status'], o['by'], o['time'], o['kind'], o['name'], 'line', o['line'], o['output'][:100].replace('\n', ' '))
    else:
        json.dump(r, open(a[2], 'w'))
