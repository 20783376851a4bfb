"""C09: the Monte Carlo histogram approximation is reweighting."""
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, close, same, states, energy, monomials, nparams, boltzmann, softmax, potts_features, potts_states, potts_boltzmann

P = Prop('C09', 'generated samples (with repetitions) and parameter changes; non-trivial: at least two distinct states in the sample '
         'and a change that is not zero')
_H = {}


def funcs(kind):
    if kind not in _H:
        from coniii import utils
        _H[kind] = (utils.define_ising_helper_functions() if kind == 'ising' else
                    utils.define_ising_helper_functions_sym() if kind == 'sym' else utils.define_potts_helper_functions(int(kind)))
    return _H[kind]


def features(kind, S):
    if kind == 'ising':
        return monomials(S)
    if kind == 'sym':
        return monomials(S)[:, S.shape[1]:]
    return potts_features(S, int(kind))


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(['ising', 'ising', 'sym', '2', '3', '4']))
    n = draw(st.integers(2, 5))
    vals = {'ising': draw(st.sampled_from([(-1, 1), (-1, 1), (0, 1)])), 'sym': (-1, 1)}.get(kind) or tuple(range(int(kind)))
    pool = draw(gen.sample(n, 1, 6, vals))
    X = draw(st.lists(st.one_of(st.sampled_from(pool), gen.spins(n, vals)), min_size=1, max_size=30))
    m = n * (n - 1) // 2 if kind == 'sym' else nparams(n) if kind == 'ising' else n * int(kind) + n * (n - 1) // 2
    scale = draw(st.sampled_from([0., 1e-5, 1e-3, .01, .3, 1., 4., 50., 3000.]))
    return dict(kind=kind, n=n, X=X, d=draw(gen.vec(m, gen.reals(scale))), rep=draw(st.sampled_from([1, 1, 50])),
                dtype=draw(st.sampled_from(['int64', 'int64', 'int8', 'float64'])) if kind.isdigit() else 'int64')


@P.sub('reweighting', case_, quick=1500, thorough=40000)
def reweighting(case, ctx):
    f = funcs(case['kind'])[2]
    X = np.array(case['X'] * case['rep'])
    d = np.array(case['d'], float)
    F = features(case['kind'], X)
    w = softmax(F.dot(d))
    Y = X.astype(case['dtype'])
    keep, kd = Y.copy(), d.copy()
    got = f(Y, d)
    close(got, w.dot(F), 'predicted observables', rtol=1e-8, atol=1e-9)
    same(Y, keep, 'the given sample')
    same(d, kd, 'the given change')
    lo, hi = F.min(0), F.max(0)
    need(bool(((got >= lo - 1e-9) & (got <= hi + 1e-9)).all()), 'prediction %s outside of the range of the observables', got)
    close(f(Y, np.zeros_like(d)), F.mean(0), 'prediction for no change', atol=1e-10)
    perm = np.random.RandomState(0).permutation(len(Y))
    close(f(Y[perm], d), got, 'prediction for the sample in another order', atol=1e-10)
    ctx.tag(case['kind'])
    ctx.trivial(not d.any() or len(set(map(tuple, case['X']))) < 2)


@st.composite
def exact_case(draw):
    kind = draw(st.sampled_from(['ising', 'sym', '3']))
    n = draw(st.integers(2, 4 if kind != '3' else 3))
    m = n * (n - 1) // 2 if kind == 'sym' else nparams(n) if kind == 'ising' else n * 3 + n * (n - 1) // 2
    return dict(kind=kind, n=n, d=draw(gen.vec(m, gen.smooth(2.))))


@P.sub('whole_space', exact_case, quick=300, thorough=6000)
def whole_space(case, ctx):
    """From all states once (the model without parameters) to the exact observables of the new model."""
    n, d = case['n'], np.array(case['d'])
    S = potts_states(n, 3) if case['kind'] == '3' else states(n, True)
    F = features(case['kind'], S)
    want = softmax(F.dot(d)).dot(F)
    close(funcs(case['kind'])[2](S, d), want, 'observables of the new model', atol=1e-9)
    ctx.trivial(not d.any())


@P.sub('dominant_row', lambda: st.fixed_dictionaries(dict(n=st.integers(2, 6), R=st.integers(500, 20000), seed=gen.seeds, size=st.sampled_from([3., 10., 30., 100.]),
       kind=st.sampled_from(['ising', 'sym', '3']))), quick=30, thorough=400)
def dominant_row(case, ctx):
    """Changes that leave the weight on one row of many."""
    n, kind = case['n'], case['kind']
    r = np.random.RandomState(case['seed'])
    X = r.choice([-1, 1], size=(case['R'], n)) if kind != '3' else r.randint(0, 3, (case['R'], n))
    a = int(r.randint(case['R']))
    F = features(kind, X)
    d = (F[a] - F.mean(0)) * case['size'] / n + r.randn(F.shape[1]) * .1
    keep = (F != F[a]).any(1)
    keep[a] = True
    X, F = X[keep], F[keep]
    w = softmax(F.dot(d))
    close(funcs(kind)[2](X, d), w.dot(F), 'predicted observables', rtol=1e-8, atol=1e-9)
    ctx.tag('one row has more than half of the weight', w.max() > .5)
    ctx.trivial(len(X) < 2)


@P.sub('many_spins', gen.large(6, 45, rows=300, scales=(1e-4, .01, .1, 1., 20., 500.), k=st.sampled_from([0, 0, 1, 3, 6])), quick=60, thorough=1200)
def many_spins(case, ctx):
    k = case['k']
    kind = ['ising', 'sym'][k] if k < 2 else str(k)
    n = case['n'] if k < 2 else min(20, case['n'])
    vals = case['vals'] if k == 0 else [-1, 1] if k == 1 else list(range(k))
    d, X = gen.bulk(dict(case, n=n, vals=vals), nparams(n) if k == 0 else n * (n - 1) // 2 + (n * k if k > 1 else 0))
    F = features(kind, X)
    close(funcs(kind)[2](X, d), softmax(F.dot(d)).dot(F), 'predicted observables', rtol=1e-7, atol=1e-8)
    ctx.tag(kind)
    ctx.trivial(len(X) < 2)
