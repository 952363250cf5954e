"""Bind the checks to /repo's *current* working tree.

The Python sources are imported straight from $VERIF_REPO (default /repo).  The C extensions are rebuilt
from that tree's sources (never taken from the .so files lying in it, which can be stale) into a cache
directory under /verif, keyed by a hash of every C source, and an import hook makes `pygeode.<ext>` resolve
to those objects.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, warnings

REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

def _srchash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'pygeode'))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.c', '.h')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                with open(p, 'rb') as fh: h.update(fh.read())
    with open(os.path.join(REPO, 'setup.py'), 'rb') as fh: h.update(fh.read())
    h.update(sys.version.encode())
    return h.hexdigest()[:24]

def build_ext():
    """Compile the C extensions of the current tree; returns {module name: .so path}."""
    base = os.path.join(VERIF, '.cache', 'ext')
    dest = os.path.join(base, _srchash())
    if not os.path.exists(os.path.join(dest, 'DONE')):
        os.makedirs(base, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='build-', dir=base)
        try:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
            r = subprocess.run([PY, '-B', 'setup.py', '-q', 'build_ext', '--parallel', '8', '--force',
                                '--build-lib', os.path.join(tmp, 'lib'),
                                '--build-temp', os.path.join(tmp, 'tmp')],
                               cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                sys.stderr.write(r.stdout.decode(errors='replace')[-4000:])
                raise SystemExit('cannot build the C extensions of %s' % REPO)
            shutil.rmtree(os.path.join(tmp, 'tmp'), ignore_errors=True)
            open(os.path.join(tmp, 'DONE'), 'w').close()
            try:
                os.rename(tmp, dest)
            except OSError:
                pass                    # another check finished the same build first
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    out = {}
    lib = os.path.join(dest, 'lib')
    for root, _, files in os.walk(lib):
        for f in files:
            if f.endswith('.so'):
                rel = os.path.relpath(os.path.join(root, f), lib)
                out[rel.split('.')[0].replace(os.sep, '.')] = os.path.join(root, f)
    return out

class _Finder:
    def __init__(self, mods): self.mods = mods
    def find_spec(self, name, path=None, target=None):
        p = self.mods.get(name)
        if p is None: return None
        from importlib.util import spec_from_file_location
        return spec_from_file_location(name, p)

_booted = False
def boot():
    """Build, hook, and import pygeode from the tree under test."""
    global _booted
    if _booted:
        import pygeode
        return pygeode
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ[k] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['TZ'] = 'UTC'
    mpl = os.path.join(VERIF, '.cache', 'mpl'); os.makedirs(mpl, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = mpl
    os.environ['HOME'] = os.path.join(VERIF, '.cache')      # no user pygrc
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, _Finder(build_ext()))
    if REPO in sys.path: sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import pygeode
    got = os.path.realpath(pygeode.__file__)
    assert got.startswith(os.path.realpath(REPO) + os.sep), got
    _quiet()
    _booted = True
    return pygeode

def _quiet():
    """Progress bars write to the terminal; they are not under test except where a check says so."""
    import warnings
    warnings.simplefilter('ignore')
