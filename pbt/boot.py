"""Process set-up shared by every entry point.

* fixes PYTHONHASHSEED / thread counts (re-executes the interpreter once),
* never reads or writes byte code of the code under test (a stale .pyc could hide a change),
* makes Hypothesis importable offline (wheel unpacked into /verif/.deps, else the tooling venv),
* puts the code under test (/repo unless VERIF_REPO says otherwise) first on sys.path.
"""
import importlib.machinery
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEPS = os.path.join(VERIF, '.deps')
WHEELS = '/opt/veriftools/wheels'
PYVENV_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

_ENV = {
    'PYTHONHASHSEED': '0',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONWARNINGS': 'ignore',
    'QISKIT_PARALLEL': 'FALSE',
    'QISKIT_SUPPRESS_PACKAGING_WARNINGS': 'Y',
}


def reexec_if_needed():
    if os.environ.get('_PBT_BOOTED') == '1':
        return
    env = dict(os.environ)
    env.update(_ENV)
    env['_PBT_BOOTED'] = '1'
    env.pop('PYTHONPATH', None)
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)


def _unpack_wheels():
    import glob
    import shutil
    import tempfile
    import zipfile
    wheels = []
    for pat in ('hypothesis-*-cp312-*.whl', 'sortedcontainers-*.whl'):
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            return False
        wheels.append(found[-1])
    tmp = tempfile.mkdtemp(prefix='.deps-', dir=VERIF)
    try:
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return True


def ensure_hypothesis():
    def usable():
        try:
            import hypothesis  # noqa: F401
            return True
        except Exception:
            for m in [m for m in sys.modules if m.split('.')[0] == 'hypothesis']:
                del sys.modules[m]
            return False
    if os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        sys.path.append(DEPS)
    if usable():
        return
    try:
        if _unpack_wheels():
            if DEPS not in sys.path:
                sys.path.append(DEPS)
            if usable():
                return
    except Exception:
        pass
    sys.path.append(PYVENV_SITE)
    if not usable():
        print('HARNESS-ERROR: hypothesis is not importable', flush=True)
        sys.exit(2)


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """No byte code cache is ever read for the code under test."""
    def path_stats(self, path):
        raise OSError('byte code is not used')


class _FromSource:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'blueqat' and not name.startswith('blueqat.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _NoCacheLoader(spec.loader.name, spec.loader.path)
        return spec


def setup():
    reexec_if_needed()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _FromSource)
    sys.path.insert(0, REPO)
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(1, here)
    ensure_hypothesis()
    import warnings
    warnings.simplefilter('ignore')
