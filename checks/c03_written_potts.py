"""C03: Potts equation files compute the Potts model."""
import importlib.util, os, subprocess, sys
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.build import REPO
from vh.oracle import need, close, same, potts_states, potts_features, softmax

P = Prop('C03', 'generated numbers of spins and states, with parameters that differ for every spin and state; non-trivial: '
         'parameters not all equal')
_seq = [0]


def load(path):
    _seq[0] += 1
    name = 'coniii.ising_eqn._vh_potts_%d' % _seq[0]
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def compare(m, n, k, th, what):
    F = potts_features(potts_states(n, k), k)
    want = softmax(F.dot(th))
    th = np.array(th)
    keep = th.copy()
    p = m.p(th)
    need(np.shape(p) == (k**n,), '%s p: shape %s', what, np.shape(p))
    close(p, want, what + ' p', rtol=1e-9, atol=1e-280)
    close(m.calc_observables(th), want.dot(F), what + ' calc_observables', rtol=0, atol=1e-9)
    same(th, keep, 'the given parameters')


def sizes(limit):
    return [(n, k) for n in range(3, 8) for k in range(2, 13) if k**n <= limit]


@st.composite
def case_(draw):
    n, k = draw(st.sampled_from(sizes(300)))
    how = draw(st.sampled_from(['any', 'smooth', 'onehot']))
    size = n * k + n * (n - 1) // 2
    scale = draw(st.sampled_from([.3, 2., 30.]))
    if how == 'onehot':
        th = [0.] * size
        th[draw(st.integers(0, size - 1))] = scale
    else:
        th = draw(gen.vec(size, gen.reals(scale) if how == 'any' else gen.smooth(scale)))
    return dict(n=n, k=k, th=th)


_mods = {}


@P.sub('generated', case_, quick=300, thorough=6000)
def generated(case, ctx):
    from coniii.enumerate_potts import SpecificFieldGenericCouplings
    n, k = case['n'], case['k']
    if (n, k) not in _mods:
        SpecificFieldGenericCouplings(n, k).write('potts.py')
        _mods[n, k] = load('potts.py')
    compare(_mods[n, k], n, k, case['th'], 'file of %d spins with %d states' % (n, k))
    ctx.tag('n=%d k=%d' % (n, k))
    ctx.trivial(len(set(case['th'])) < 2)


@P.sub('every_size', cases=lambda tier: [list(x) for x in sizes(800 if tier == 'quick' else 4100)] + [[3, k] for k in ((11,) if tier == 'quick' else (17,))] + [[n, 2] for n in ((11,) if tier == 'quick' else (11, 12, 13))], exhaustive=True)
def every_size(case, ctx):
    """Each parameter differs, so that every misplaced one shows."""
    from coniii.enumerate_potts import SpecificFieldGenericCouplings
    n, k = case
    w = SpecificFieldGenericCouplings(n, k)
    w.write('q.py')
    m = load('q.py')
    if n * k <= 12:
        w.write('again.py')
        compare(load('again.py'), n, k, np.random.RandomState(n + k).uniform(-2, 2, n * k + n * (n - 1) // 2), 'second file written by the same object')
    size = n * k + n * (n - 1) // 2
    rng = np.random.RandomState(n + 100 * k)
    compare(m, n, k, rng.uniform(-2, 2, size), 'file of %d spins with %d states' % (n, k))
    for wrong in (size - 1, size + 1):
        try:
            m.p(np.zeros(wrong))
        except Exception:
            continue
        need(False, '%d parameters accepted instead of %d', wrong, size)


@P.sub('command_line', cases=lambda tier: [[3, 3]] if tier == 'quick' else [[3, 2], [3, 3], [4, 3], [3, 5], [3, 11]])
def command_line(case, ctx):
    n, k = case
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    r = subprocess.run([sys.executable, '-m', 'coniii.enumerate_potts', str(n), str(k), 'cli.py'],
                       capture_output=True, text=True, timeout=300, env=env)
    need(r.returncode == 0, 'command line failed: %s', r.stderr[-800:])
    size = n * k + n * (n - 1) // 2
    compare(load('cli.py'), n, k, np.random.RandomState(0).uniform(-2, 2, size), 'file from the command line')
