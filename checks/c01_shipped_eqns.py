"""C01: the equation files that are shipped compute the Boltzmann distribution and its means."""
import importlib
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, close, states, monomials, nparams, softmax, same

FILES = [(n, sym, 2, 'ising_eqn_%d%s' % (n, '_sym' if sym else '')) for n in range(2, 10) for sym in (False, True)]
FILES += [(5, False, 3, 'ising_eqn_5_triplet'), (5, True, 3, 'ising_eqn_5_sym_triplet')]
P = Prop('C01', 'every shipped file, evaluated at one-hot parameter vectors for each parameter and at generated vectors; '
         'non-trivial: at least two parameters differ from zero, or a one-hot vector', warm=lambda: None)
_M = {}


def mats(n, sym, order):
    if (n, sym, order) not in _M:
        S = states(n, sym)
        _M[n, sym, order] = monomials(S, order)
    return _M[n, sym, order]


def compare(mod, n, sym, order, th, what):
    M = mats(n, sym, order)
    want = softmax(M.dot(th))
    got = mod.p(th)
    need(np.shape(got) == (2**n,), '%s p: shape %s', what, np.shape(got))
    close(got, want, what + ' p', rtol=1e-9, atol=1e-280)
    need(abs(np.sum(got) - 1) < 1e-9, '%s p adds up to %r', what, float(np.sum(got)))
    c = mod.calc_observables(th)
    close(c, want.dot(M), what + ' calc_observables', rtol=0, atol=1e-9)


def module(name):
    return importlib.import_module('coniii.ising_eqn.' + name)


def onehot(tier):
    vals = [0.7, -50.] if tier == 'quick' else [1e-3, -.3, .7, 2., -10., 50., -50.]
    return [[i, j, v] for i, f in enumerate(FILES) for j in range(nparams(f[0], f[2])) for v in vals]


@P.sub('one_hot', cases=onehot, exhaustive=True)
def one_hot(case, ctx):
    n, sym, order, name = FILES[case[0]]
    th = np.zeros(nparams(n, order))
    th[case[1]] = case[2]
    compare(module(name), n, sym, order, th, name)


def gen_case(files):
    @st.composite
    def c(draw):
        f = draw(st.sampled_from(files))
        n, sym, order, name = FILES[f]
        k = nparams(n, order)
        scale = draw(st.sampled_from([.1, 1., 1., 3., 10., 50.]))
        how = draw(st.sampled_from(['any', 'smooth', 'same', 'sparse', 'strings']))
        if how == 'any':
            th = draw(gen.vec(k, gen.reals(scale)))
        elif how == 'smooth':
            th = draw(gen.vec(k, gen.smooth(scale)))
        elif how == 'same':
            v = draw(gen.reals(scale))
            th = [v] * k
        elif how == 'sparse':
            th = [0.] * k
            for i in draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=3)):
                th[i] = draw(gen.reals(scale))
        else:
            th = draw(gen.vec(k, st.sampled_from([scale, -scale])))
        return dict(file=f, th=th)
    return c


@P.sub('small', gen_case([i for i, f in enumerate(FILES) if f[0] <= 6]), quick=700, thorough=30000)
def small(case, ctx):
    n, sym, order, name = FILES[case['file']]
    th = np.array(case['th'], float)
    keep = th.copy()
    compare(module(name), n, sym, order, th, name)
    same(th, keep, 'the given parameters')
    ctx.tag(name)
    ctx.trivial((th != 0).sum() < 2)


@P.sub('large', gen_case([i for i, f in enumerate(FILES) if f[0] > 6]), quick=250, thorough=8000)
def large(case, ctx):
    small(case, ctx)


@P.sub('integer_parameters', gen_case([i for i, f in enumerate(FILES) if f[0] <= 5]), quick=150, thorough=2000)
def integer_parameters(case, ctx):
    """Whole numbers stored as integers mean the same as floats."""
    n, sym, order, name = FILES[case['file']]
    th = np.round(case['th']).astype(int)
    m = module(name)
    close(m.p(th), m.p(th.astype(float)), name + ' p', rtol=1e-12, atol=1e-280)
    close(m.calc_observables(th), m.calc_observables(th.astype(float)), name + ' calc_observables', rtol=0, atol=1e-12)
    ctx.trivial((th != 0).sum() < 2)
