#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter dedop-core is installed for, with a
hermetic environment (scratch HOME, no byte code written, one BLAS thread), then
hands over to vlib.harness.  See DESIGN.md.
"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def bootstrap():
    import atexit
    import shutil
    import signal
    import subprocess
    import tempfile
    work = tempfile.mkdtemp(prefix='verif-dedop-')
    atexit.register(shutil.rmtree, work, True)
    for sub in ('home', 'tmp', 'site', 'pyc'):
        os.makedirs(os.path.join(work, sub))
    link_hypothesis(os.path.join(work, 'site'))
    env = {
        'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'LANG': 'C.UTF-8', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'NUMBA_DISABLE_JIT': '1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1',
        'NUMEXPR_NUM_THREADS': '1',
        'HOME': os.path.join(work, 'home'), 'USERPROFILE': os.path.join(work, 'home'),
        'TMPDIR': os.path.join(work, 'tmp'),
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(work, 'pyc'),
        'PYTHONPATH': os.pathsep.join([os.path.join(work, 'site'), VERIF, REPO]),
        'PYTHONWARNINGS': 'ignore',
        'VERIF_WORK': work, 'VERIF_REPO': REPO, 'VERIF_BOOTED': '1',
        'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
        'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick'),
    }
    for k in ('VERIF_SCALE', 'VERIF_SHARDS', 'VERIF_DEBUG', 'VERIF_ONLY', 'VERIF_SHRINK'):
        if k in os.environ:
            env[k] = os.environ[k]
    child = subprocess.Popen([PY, '-B', os.path.join(VERIF, 'run.py')] + sys.argv[1:], env=env, cwd=VERIF,
                             start_new_session=True)

    def forward(signum, _frame):
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(work, True)
        os._exit(128 + signum)
    signal.signal(signal.SIGTERM, forward)
    signal.signal(signal.SIGINT, forward)
    rc = child.wait()
    return rc if rc >= 0 else 3


def link_hypothesis(site):
    """make Hypothesis (and nothing else of the tool environment) importable"""
    import glob
    import zipfile
    names = ('hypothesis', 'sortedcontainers', '_hypothesis_ftz_detector.py', '_hypothesis_globals.py',
             '_hypothesis_pytestplugin.py')
    src = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if all(os.path.exists(os.path.join(src, n)) for n in names):
        for n in names:
            os.symlink(os.path.join(src, n), os.path.join(site, n))
        return
    for pattern in ('hypothesis-*-cp312-*.whl', 'sortedcontainers-*.whl'):
        for wheel in sorted(glob.glob('/opt/veriftools/wheels/' + pattern))[-1:]:
            zipfile.ZipFile(wheel).extractall(site)


if __name__ == '__main__':
    if os.environ.get('VERIF_BOOTED') != '1':
        sys.exit(bootstrap())
    from vlib.harness import main
    sys.exit(main(sys.argv[1:]))
