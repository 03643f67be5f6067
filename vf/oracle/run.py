"""/opt/venv/bin/python -m vf.oracle.run PROPERTY SCRATCH OUT.json SEED SECONDS [REPLAY]"""
import sys, os, json, time, traceback, importlib, hashlib, faulthandler
prop, root, outp, seed, secs = sys.argv[1:6]
sys.path.insert(0, root)
import numpy as np
np.seterr(all='ignore')
import warnings
warnings.simplefilter('ignore')
from vf.oracle import base, props, props2


def main():
    import malstroem
    assert os.path.realpath(malstroem.__file__).startswith(os.path.realpath(root)), malstroem.__file__
    ck = props.CHECKS[prop]
    t0 = time.time()
    res = {'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'bounds': ck.__doc__ or ''}
    seen = set()
    cur = outp + '.cur'

    def evaluate(case):
        with open(cur, 'w') as f:
            json.dump(base.enc(case), f)
        res['evaluations'] += 1
        k = hashlib.md5(open(cur, 'rb').read()).hexdigest()
        if k not in seen:
            seen.add(k)
        c = case
        try:
            with base.Limit(30):
                return ck.check(c)
        except base.Skip:
            return []
        except (AssertionError, Exception) as e:
            return ['%s: %s' % (type(e).__name__, e) + ' at ' + '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:])]
    if len(sys.argv) > 6:
        d = json.load(open(sys.argv[6]))
        msgs = evaluate(base.dec(d['case']))
        for m in msgs:
            print('REPRODUCED', m)
        sys.exit(1 if msgs else 0)
    gen = base.Gen('%s/%s' % (seed, prop), root)
    for case in ck.cases(gen):
        msgs = evaluate(case)
        if len(res['samples']) < 2 or (res['evaluations'] in (50, 200)):
            res['samples'].append(json.dumps(base.enc(case))[:600])
        for m in msgs:
            m = m if len(m) < 700 else m[:700] + ' ...'
            res['violations'].append({'what': m, 'case': base.enc(case)})
        if len(res['violations']) >= 3:
            break
        if time.time() - t0 > float(secs):
            break
    res['distinct'] = len(seen)
    res['seconds'] = time.time() - t0
    json.dump(res, open(outp, 'w'))


main()
