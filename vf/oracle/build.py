"""Scratch build of /repo's working tree (both back ends), outside /repo."""
import os, shutil, subprocess, sys, tempfile

ENV = dict(HOME='/root', LANG='C.UTF-8', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', CC='/usr/bin/gcc', PROJ_NETWORK='OFF',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
PY = '/opt/venv/bin/python'


def build(root='/repo'):
    """returns (scratch directory, error text or None)"""
    d = tempfile.mkdtemp(prefix='vf-build-')
    ign = shutil.ignore_patterns('*.so', '*.c', '*.cpp', '__pycache__')
    shutil.copytree(os.path.join(root, 'malstroem'), os.path.join(d, 'malstroem'), ignore=ign)
    for f in os.listdir(root):
        p = os.path.join(root, f)
        if os.path.isfile(p) and not f.startswith('.'):
            shutil.copy(p, d)
    p = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '-j4'], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return d, p.stdout.decode('utf-8', 'replace')[-3000:]
    return d, None


if __name__ == '__main__':
    d, e = build(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    print(d)
    if e:
        print(e, file=sys.stderr)
        sys.exit(1)
