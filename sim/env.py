"""Process set-up: import the system under test from the repository's working tree, quietly and reproducibly."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'


class BuildError(Exception):
    pass


def load():
    """Import pymgrid from REPO/src; raises if it resolves to anything else."""
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    import io
    import contextlib
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        import pymgrid
        import pymgrid.envs
        import pymgrid.modules
        import pymgrid.algos
    warnings.simplefilter('ignore')
    if not os.path.realpath(pymgrid.__file__).startswith(os.path.realpath(src) + os.sep):
        raise BuildError('pymgrid imported from %s, not from %s' % (pymgrid.__file__, src))
    return pymgrid
