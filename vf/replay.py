"""python3-vt -m vf.replay FILE: evaluate the recorded case on a scratch build of /repo"""
import sys, os, json, subprocess, shutil
from .oracle import build
f = os.path.abspath(sys.argv[1])
d = json.load(open(f))
if 'case' not in d:
    print(json.dumps(d, indent=1))
    sys.exit(1)
root, err = build.build('/repo')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run([build.PY, '-m', 'vf.oracle.run', d['property'], root, os.path.join(root, 'out.json'), '1', '10', f], env=dict(build.ENV, PYTHONPATH=here), cwd=root)
shutil.rmtree(root)
sys.exit(r.returncode)
