"""Process set-up. Import this before anything that may import jax."""

import importlib.machinery
import os
import sys

REPO = os.environ.get('FOLX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _SourceOnly(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _source_only_hook():
    root = os.path.realpath(REPO)

    def hook(path):
        real = os.path.realpath(path)
        if real != root and not real.startswith(root + os.sep):
            raise ImportError
        return importlib.machinery.FileFinder(path, (_SourceOnly, ['.py']))

    hook.folxmon = True
    return hook


def setup():
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ['XLA_FLAGS'] = (
        # Without FMA an operand XLA re-computes inside a fusion has the same rounding,
        # otherwise the exact comparisons in the derivatives of min and max break.
        '--xla_cpu_max_isa=SSE4_2 '
        '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    )
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
    # Always the sources of the working tree: neither read nor leave bytecode in /repo.
    if not any(getattr(h, 'folxmon', False) for h in sys.path_hooks):
        sys.path_hooks.insert(0, _source_only_hook())
        sys.path_importer_cache.clear()
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


_done = False


def load():
    """Import jax and folx from the working tree."""
    global _done
    if _done:
        return
    setup()
    import jax

    jax.config.update('jax_enable_x64', True)
    import folx

    where = os.path.realpath(os.path.dirname(folx.__file__))
    want = os.path.realpath(os.path.join(REPO, 'folx'))
    if where != want:
        raise RuntimeError(f'folx was imported from {where}, not from {want}')
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    _done = True
