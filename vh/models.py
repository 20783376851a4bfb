"""Models and helper functions of the package, built once per process (each construction compiles)."""
import numpy as np
_C = {}


def ising_helpers():
    if 'h' not in _C:
        from coniii import utils
        _C['h'] = utils.define_ising_helper_functions()
    return _C['h']


def potts_helpers(k=3):
    if ('p', k) not in _C:
        from coniii import utils
        _C['p', k] = utils.define_potts_helper_functions(k)
    return _C['p', k]


def triplet_helpers():
    if 't' not in _C:
        from coniii import utils
        _C['t'] = utils.define_triplet_helper_functions()
    return _C['t']


def ising(n):
    """Pairwise model with all parameters zero; reused, so set what you need."""
    if ('i', n) not in _C:
        from coniii.models import Ising
        _C['i', n] = Ising(np.zeros(n * (n + 1) // 2), rng=np.random.RandomState(0))
    m = _C['i', n]
    m.set_multipliers(np.zeros(n * (n + 1) // 2))
    return m
