"""Environment of a check: scratch directory, quiet OpenMDAO, /repo on the path.

Imported before numpy/openmdao/omtools by every process of a check.
"""
import atexit
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OM_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
DEEP = TIER == 'thorough'
NPROC = int(os.environ.get('OM_NPROC', '0') or 0) or max(1, (os.cpu_count() or 2))

os.environ.update(OPENMDAO_REPORTS='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                  OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                  PYTHONDONTWRITEBYTECODE='1', OPENMDAO_USE_MPI='0')
sys.dont_write_bytecode = True

if 'OM_SCRATCH' not in os.environ:
    os.environ['OM_SCRATCH'] = tempfile.mkdtemp(prefix='omverif_')
    _owner = os.getpid()

    def _cleanup(path=os.environ['OM_SCRATCH']):
        if os.getpid() == _owner and path.startswith(tempfile.gettempdir()):
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(_cleanup)
SCRATCH = os.environ['OM_SCRATCH']
os.environ['OPENMDAO_WORKDIR'] = SCRATCH


def import_omtools():
    """Import omtools from REPO, with all its noise silenced."""
    import logging
    import warnings
    warnings.filterwarnings('ignore')
    warnings.simplefilter = lambda *a, **k: None
    warnings.showwarning = lambda *a, **k: None
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import omtools
    assert os.path.realpath(omtools.__file__).startswith(os.path.realpath(REPO)), omtools.__file__
    return omtools
