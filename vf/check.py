"""check PROPERTY: proof of every contract of the property on /repo's current source, and replay of its executable contract."""
import sys, os, json, time, subprocess, shutil, tempfile, threading, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ROOT = '/repo'
VT = sys.executable


def jobs_of(prop):
    import specs
    from vf.prove import contract
    out = []
    for name in specs.PROPS.get(prop, []):
        ct = contract(name)
        for q in ct.quals or ('-',):
            out.append((name, q, ct))
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import specs
    info = specs.INFO.get(prop, {})
    budget = 25 if tier == 'quick' else 240
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vf-check-')
    oracle = {}

    def run_oracle():
        from vf.oracle import build
        d, err = build.build(ROOT)
        oracle['dir'] = d
        if err:
            oracle['build_error'] = err
            return
        outp = os.path.join(work, 'oracle.json')
        env = dict(build.ENV, PYTHONPATH=HERE)
        outs = []
        nproc = 1 if tier == 'quick' else 3
        ps = []
        for i in range(nproc):
            o = outp + str(i)
            ps.append((o, subprocess.Popen([build.PY, '-m', 'vf.oracle.run', prop, d, o, '%d.%d' % (seed, i), str(budget)], cwd=work, env=env,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for o, p in ps:
            try:
                txt = p.communicate(timeout=budget + 120)[0].decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                p.kill()
                txt = 'timeout'
            if os.path.exists(o):
                outs.append(json.load(open(o)))
            else:
                # the interpreter died: the case being evaluated is the failing input
                if os.path.exists(o + '.cur') and (p.returncode is None or p.returncode < 0 or txt == 'timeout'):
                    outs.append({'evaluations': 1, 'distinct': 1, 'samples': [], 'violations': [
                        {'what': 'the interpreter was ended by signal %s' % (-p.returncode if p.returncode else 'timeout'), 'case': json.load(open(o + '.cur'))}]})
                else:
                    oracle['error'] = txt[-3000:]
        oracle['runs'] = outs

    th = threading.Thread(target=run_oracle)
    th.start()
    jobs = jobs_of(prop)
    par = 4
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', VF_JOBS='3', PYTHONHASHSEED='0')

    def one(ij, scale=1):
        i, (name, q, ct) = ij
        o = os.path.join(work, 'p%d_%s.json' % (i, scale))
        tmo = min(ct.timeout, max(60, 780 - (time.time() - t0))) if tier == 'quick' else ct.timeout * 3
        p = subprocess.Popen([VT, '-m', 'vf.prove', name, q, o, str(ct.solver_timeout * (1 if tier == 'quick' else 2))], cwd=HERE, env=dict(env, VF_SCALE=str(scale)),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        end = time.time() + tmo
        while True:
            try:
                txt = p.communicate(timeout=2)[0].decode('utf-8', 'replace')
                break
            except subprocess.TimeoutExpired:
                # with a failing input in hand the verdict is known: the remaining obligations are not waited for
                stop = tier == 'quick' and time.time() - t0 > 150 and any(r['violations'] for r in oracle.get('runs', []))
                if stop or time.time() > end:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.communicate()
                    txt = 'stopped: a failing input is known' if stop else 'no verdict within %d s' % tmo
                    break
        if os.path.exists(o):
            return json.load(open(o))
        return {'contract': name, 'function': q, 'obligations': [], 'error': txt if txt.startswith(('stopped', 'no verdict')) else 'verifier: ' + txt[-600:], 'time': 0}
    with ThreadPoolExecutor(par) as ex:
        proofs = list(ex.map(one, list(enumerate(jobs))))
    th.join()
    # what resisted is tried once more, alone and with more time, unless a failing input is known already
    if not any(r['violations'] for r in oracle.get('runs', [])):
        again = [i for i, p in enumerate(proofs) if any(o['status'] == 'unknown' for o in p['obligations']) or (p['error'] or '').startswith(('no verdict', 'verifier', 'engine'))]
        if again and len(again) <= 4 and time.time() - t0 < 400:
            with ThreadPoolExecutor(2) as ex:
                for i, r in zip(again, ex.map(lambda i: one((i, jobs[i]), 4), again)):
                    if not r['error'] and sum(o['status'] != 'unsat' for o in r['obligations']) <= sum(o['status'] != 'unsat' for o in proofs[i]['obligations']) or proofs[i]['error']:
                        proofs[i] = r

    failed = []
    obls = disch = 0
    backends, solver_time = {}, 0.0
    for p in proofs:
        bounded = False
        for o in p['obligations']:
            obls += 1
            solver_time += o['time']
            if o['status'] == 'unsat':
                disch += 1
                backends[o['by']] = backends.get(o['by'], 0) + 1
            else:
                failed.append({'function': p['function'], 'contract': p['contract'], 'obligation': o['name'], 'line': o['line'], 'status': o['status'], 'output': o['output']})
        if p['error']:
            failed.append({'function': p['function'], 'contract': p['contract'], 'obligation': 'all of the contract', 'line': None, 'status': 'undecided', 'output': p['error']})
    runs = oracle.get('runs', [])
    viol = [v for r in runs for v in r['violations']]
    known = known_findings(prop)
    lines, rc = [], 0
    fresh, listed = [], []
    for v in viol:
        k = next((k for k in known if k['match'] in v['what']), None)
        (listed if k else fresh).append((k, v))
    for k in {k['text']: k for k, _ in listed}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if fresh:
        v = fresh[0][1]
        path = os.path.join(HERE, 'evidence', 'replay', '%s.json' % prop)
        json.dump({'property': prop, 'what': v['what'], 'case': v['case'], 'failed_obligations': failed,
                   'how': 'python3-vt -m vf.replay %s (runs the case on a scratch build of /repo)' % path}, open(path, 'w'), indent=1)
        print('violated: %s' % v['what'])
        for f in failed[:5]:
            print('failed obligation: %s: %s (line %s): %s' % (f['function'], f['obligation'], f['line'], f['status']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif failed or oracle.get('build_error') or oracle.get('error') or not obls:
        path = os.path.join(HERE, 'evidence', 'replay', '%s.json' % prop)
        if oracle.get('build_error'):
            failed.append({'function': 'build', 'obligation': 'the sources build', 'status': 'failed', 'output': oracle['build_error'], 'line': None, 'contract': ''})
        if oracle.get('error'):
            failed.append({'function': 'replay', 'obligation': 'the executable contract can be evaluated', 'status': 'failed', 'output': oracle['error'], 'line': None, 'contract': ''})
        if not obls:
            failed.append({'function': '-', 'obligation': 'at least one obligation is generated', 'status': 'failed', 'output': '', 'line': None, 'contract': ''})
        json.dump({'property': prop, 'what': 'obligations not discharged', 'failed_obligations': failed}, open(path, 'w'), indent=1)
        for f in failed[:8]:
            print('failed obligation: %s: %s (line %s): %s %s' % (f['function'], f['obligation'], f['line'], f['status'], f['output'][:300].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1

    functions = sorted({p['function'] for p in proofs if p['function'] != '-'})
    cov = {
        'obligations': obls, 'discharged': disch,
        'checker_cmd': 'python3-vt -m vf.check %s %s (VC generator vf/core.py over the current /repo sources; z3-new, cvc5, z3 as back ends)' % (prop, tier),
        'trusted_base': info.get('trusted', []) + specs.TRUSTED,
        'functions_under_contract': functions,
        'functions_executed_in_line': sorted({f for p in proofs for f in p.get('inlined', [])} - set(functions)),
        'library_models_used': sorted({f for p in proofs for f in p.get('library', [])}),
        'discharged_by': backends, 'solver_seconds': round(solver_time, 1),
        'per_function': [{'function': p['function'], 'contract': p['contract'], 'obligations': len(p['obligations']),
                          'discharged': sum(o['status'] == 'unsat' for o in p['obligations']), 'seconds': round(p.get('time', 0), 1),
                          'reachability': p.get('reach'), 'error': p['error']} for p in proofs],
        'replay_evaluations': sum(r['evaluations'] for r in runs), 'replay_distinct': sum(r['distinct'] for r in runs),
        'replay_bounds': runs[0].get('bounds', '') if runs else '', 'samples': [s for r in runs for s in r['samples']][:4],
        'bounded_only': info.get('bounded', []),
    }
    lvl = info.get('level', 'proof')
    if lvl != 'proof':
        cov['evaluations'] = cov['replay_evaluations']
        cov['distinct_nontrivial'] = cov['replay_distinct']
        cov['rule'] = info.get('rule', cov['replay_bounds'] or 'seeded cases; distinct by content')
        cov['explanation'] = info.get('explanation', 'see DESIGN.md')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov, 'assumptions': info.get('assumptions', []) + specs.ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if rc else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w'), indent=1)
    for d in (work, oracle.get('dir')):
        if d:
            shutil.rmtree(d, ignore_errors=True)
    print('%s: %d of %d obligations discharged, %d replays, %.0f s' % (prop, disch, obls, cov['replay_evaluations'], time.time() - t0))
    sys.exit(rc)


def known_findings(prop):
    """lines 'finding: property=ID match="TEXT" DESCRIPTION' of known-findings.txt; 'fixed:' lines suppress nothing"""
    import re
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match="([^"]+)" (.*)', l)
            if m and m.group(1) == prop:
                out.append({'match': m.group(2), 'text': m.group(3).strip()})
    return out


if __name__ == '__main__':
    main()
