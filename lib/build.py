"""Build the compiled parts of the tree under test, outside it, and the Java
operators of spec/RealArith.tla.  Keyed by a hash of the sources."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'


class BuildError(Exception):
    pass


def _run(cmd, cwd, log):
    env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ.get('PATH', ''), PYTHONDONTWRITEBYTECODE='1')
    with open(log, 'ab') as f:
        r = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env, shell=isinstance(cmd, str), timeout=600)
    if r.returncode:
        sys.stderr.write(open(log, errors='replace').read()[-4000:])
        raise BuildError('build failed: %s' % (cmd,))


def _hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def _product(name, files, make):
    """WORK/build/<name>-<hash>, made at most once."""
    os.makedirs(os.path.join(WORK, 'build'), exist_ok=True)
    dst = os.path.join(WORK, 'build', name + '-' + _hash(files))
    with open(os.path.join(WORK, 'build', name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dst, '.done')):
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            make(dst)
            open(os.path.join(dst, '.done'), 'w').close()
    return dst


def java():
    src = glob.glob(os.path.join(VERIF, 'spec/java/edpytspec/*.java'))
    return _product('java', src, lambda d: _run(['javac', '-cp', TLA, '-d', d] + src, d, os.path.join(d, 'log')))


def ext():
    pat = ['edpyt/*.pyx', 'edpyt/*.pxd', 'edpyt/cs*.c', 'edpyt/*.h', 'setup.py']
    files = [f for p in pat for f in glob.glob(os.path.join(REPO, p))]
    pyx = {os.path.splitext(os.path.basename(f))[0] for f in files if f.endswith('.pyx')}
    files += [f for f in glob.glob(os.path.join(REPO, 'edpyt/*.c'))
              if os.path.splitext(os.path.basename(f))[0] not in pyx and f not in files]

    def make(d):
        os.makedirs(os.path.join(d, 'edpyt'))
        for f in files:
            shutil.copy(f, os.path.join(d, 'edpyt') if not f.endswith('setup.py') else d)
        open(os.path.join(d, 'edpyt/__init__.py'), 'w').close()
        _run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], d, os.path.join(d, 'log'))
    return _product('ext', files, make)


def backend():
    src = [f for f in glob.glob(os.path.join(REPO, 'edpyt_backend/*.[ch]')) if not f.endswith('_fit.c')]
    src += [os.path.join(REPO, 'edpyt_backend/fit.py')]

    def make(d):
        for f in src:
            shutil.copy(f, d)
        _run('gcc -c -funroll-loops -O3 -Wall -Wno-unused-variable -fpic [a-z]*.c && gcc -shared -o libfit.so [a-z]*.o -lm',
             d, os.path.join(d, 'log'))
        _run([PY, 'fit.py'], d, os.path.join(d, 'log'))
    return _product('backend', src, make)


def all_(want=('java', 'ext', 'backend')):
    """Build what is wanted, in parallel; returns {name: directory}."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(3) as ex:
        fs = {k: ex.submit(globals()[k]) for k in want}
        return {k: f.result() for k, f in fs.items()}


if __name__ == '__main__':
    for k, v in all_(sys.argv[1:] or ('java', 'ext', 'backend')).items():
        print(k, v)
