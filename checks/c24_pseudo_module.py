"""C24: stand-alone pseudo-likelihood module for {0,1} data."""
import contextlib, io
import numpy as np
from hypothesis import strategies as st
from vh import gen, mf
from vh.core import Prop
from vh.oracle import need, close, same, states, subsets

P = Prop('C24', 'generated {0,1} data, parameters and least sizes; non-trivial: two spins or more and non-zero parameters')


def M():
    from coniii import pseudo_inverse_ising
    return pseudo_inverse_ising


def conditional(r, X, Jr, minSize):
    """Log-likelihood of spin r given the others, its gradient and Hessian, sample by sample.  The energy difference of
    x_r=1 and x_r=0 is J_rr + 2 sum_j J_rj x_j.  States of less than minSize ones do not exist."""
    n = len(Jr)
    L, g, H = 0., np.zeros(n), np.zeros((n, n))
    for x in np.asarray(X, float):
        d = np.array([1. if j == r else 2 * x[j] for j in range(n)])
        dE = d.dot(Jr)
        if sum(x) - x[r] < minSize:        # x_r=0 would be too small a state, so that x_r=1 is certain
            if x[r] == 1:
                continue
        sg = 2 * x[r] - 1
        L -= np.logaddexp(0, sg * dE)
        q = 1 / (1 + np.exp(-sg * dE))
        g -= sg * q * d
        H -= q * (1 - q) * np.outer(d, d)
    return L, g, H


@st.composite
def point_case(draw):
    n = draw(st.integers(1, 6))
    c = dict(n=n, X=draw(gen.sample(n, 1, 10, (0, 1))), Jr=draw(gen.vec(n, gen.reals(draw(st.sampled_from([.5, 3., 20.]))))))
    c['r'] = draw(st.integers(0, n - 1))
    c['minSize'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['dtype'] = draw(st.sampled_from(['int64', 'float64', 'int8', 'list']))
    return c


def cast(X, dtype):
    return X if dtype == 'list' else np.array(X).astype(dtype)


@P.sub('derivatives', point_case, quick=500, thorough=10000)
def derivatives(c, ctx):
    m, n, r, k = M(), c['n'], c['r'], c['minSize']
    rows = [x for x in c['X'] if sum(x) >= k]
    if not rows:
        ctx.trivial()
        return
    X, Jr = cast(rows, c['dtype']), np.array(c['Jr'])
    keep = np.array(X)
    L, g, H = conditional(r, rows, Jr, k)
    close(m.conditionalLogLikelihood(r, X, Jr, minSize=k), L, 'conditional log-likelihood', rtol=1e-8, atol=1e-8)
    close(m.conditionalJacobian(r, X, Jr, minSize=k), -g, 'derivative of minus the log-likelihood', rtol=1e-8, atol=1e-8)
    close(m.conditionalHessian(r, X, Jr, minSize=k), -H, 'second derivative of minus the log-likelihood', rtol=1e-8, atol=1e-8)
    same(np.array(X), keep, 'the data (not to be changed)')
    d = np.array([np.outer(x, x) for x in keep])
    same(m.pairCoocMat(keep), np.transpose(d, (1, 0, 2)), 'products of pairs')
    R = 2. * keep
    R[:, r] = 1
    close(m.conditionalHessian(r, X, Jr, minSize=k, pairCoocRhat=m.pairCoocMat(R)), -H, 'second derivative from given products', rtol=1e-8, atol=1e-8)
    ctx.tag('least size %d' % k)
    ctx.trivial(n == 1 or not np.any(Jr))


@st.composite
def total_case(draw):
    n = draw(st.integers(1, 5))
    return dict(n=n, X=draw(gen.sample(n, 1, 8, (0, 1))), J=draw(gen.theta(n, draw(st.sampled_from([.5, 3.])))),
                minSize=draw(st.sampled_from([0, 0, 1])))


@P.sub('total', total_case, quick=200, thorough=4000)
def total(c, ctx):
    m, n, k = M(), c['n'], c['minSize']
    rows = [x for x in c['X'] if sum(x) >= k]
    if not rows:
        return ctx.trivial()
    J = mf.to_matrix(np.array(c['J']), n)
    want = sum(conditional(r, rows, J[r], k)[0] for r in range(n))
    close(m.pseudoLogLikelihood(np.array(rows), J, minSize=k), want, 'pseudo-log-likelihood', rtol=1e-8, atol=1e-8)
    ctx.trivial(n == 1 or not np.any(J))


@st.composite
def fit_case(draw):
    k = draw(st.sampled_from([0, 0, 0, 1, 2]))
    n = draw(st.integers(max(2, k + 2 if k else 2), 4))      # otherwise the optimum is not unique
    top = draw(st.sampled_from([2, 9, 30]))
    return dict(n=n, w=draw(st.lists(st.integers(1, top), min_size=2 ** n, max_size=2 ** n)), minSize=k,
                dtype=draw(st.sampled_from(['int64', 'float64', 'int8'])))


@P.sub('fit', fit_case, quick=60, thorough=1000)
def fit(c, ctx):
    """Every row maximises its conditional likelihood; rows are combined symmetrically."""
    m, n, k = M(), c['n'], c['minSize']
    X = np.repeat(states(n, False), c['w'], axis=0).astype(c['dtype'])
    keep = X.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        J = m.pseudoInverseIsing(X, minSize=k)
    same(X, keep, 'the data (not to be changed)')
    rows = X[X.astype(int).sum(1) >= k]
    want = np.array([mf.newton(lambda Jr: conditional(r, rows, Jr, k), np.zeros(n))[0] for r in range(n)])
    close(J, .5 * (want + want.T), 'solution', rtol=3e-3, atol=3e-3)
    ctx.tag('least size %d' % k)
    ctx.trivial(len(set(c['w'])) == 1)


@P.sub('fit_many_spins', lambda: st.fixed_dictionaries(dict(n=st.integers(5, 9), seed=gen.seeds, rows=st.integers(60, 300), scale=st.sampled_from([.2, .6]),
       minSize=st.sampled_from([0, 0, 1, 2]), dtype=st.sampled_from(['int64', 'float64', 'int8']))), quick=8, thorough=150)
def fit_many(c, ctx):
    m, n, k = M(), c['n'], c['minSize']
    r = np.random.RandomState(c['seed'])
    S = states(n, False)
    p = np.exp(S.dot(r.uniform(-c['scale'], c['scale'], (n, n))).dot(r.randn(n)))
    S = S[r.choice(len(S), c['rows'], p=p / p.sum())]
    X = np.vstack([S] + [s ^ np.eye(n, dtype=int) for s in S[:12]] + [1 - np.eye(n, dtype=int), np.eye(n, dtype=int)]).astype(c['dtype'])
    keep = X.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        J = m.pseudoInverseIsing(X, minSize=k)
    same(X, keep, 'the data (not to be changed)')
    rows = X[X.astype(int).sum(1) >= k]
    want = np.array([mf.newton(lambda Jr: conditional(i, rows, Jr, k), np.zeros(n))[0] for i in range(n)])
    if np.abs(want).max() > 12:
        return ctx.tag('optimum far away')
    close(J, .5 * (want + want.T), 'solution', rtol=3e-3, atol=3e-3)
    ctx.tag('n=%d' % n)


@P.sub('whole_distribution', lambda: st.fixed_dictionaries(dict(
    n=st.integers(2, 4), a=gen.vec(4, st.integers(1, 4)), b=gen.vec(6, st.integers(1, 3)))), quick=40, thorough=600)
def whole_distribution(c, ctx):
    """Data with integer counts prod a_i^x_i prod b_ij^(x_i x_j) are the whole distribution of h=log a, J=log b."""
    m, n = M(), c['n']
    S = states(n, False)
    pr = subsets(n, 2)
    w = [int(np.prod([c['a'][i] ** s[i] for i in range(n)]) * np.prod([c['b'][q] ** (s[i] * s[j]) for q, (i, j) in enumerate(pr)])) for s in S]
    x = np.log(np.array(c['a'][:n] + c['b'][:len(pr)], float))
    X = np.repeat(S, w, axis=0)
    if len(X) > 4000:
        return ctx.trivial()
    with contextlib.redirect_stdout(io.StringIO()):
        J = m.pseudoInverseIsing(X)
    close(J, mf.to_matrix(x, n), 'parameters recovered', rtol=3e-3, atol=3e-3)
    ctx.trivial(not np.any(x))


@P.sub('many_spins', gen.large(7, 25, rows=60, rep=st.sampled_from([1, 1, 40]), vals=((0, 1),), scales=(.1, 1., 5.), minSize=st.sampled_from([0, 0, 1, 2]),
                               dtype=st.sampled_from(['int64', 'float64', 'int8'])), quick=25, thorough=500)
def many_spins(c, ctx):
    n = c['n']
    th, X = gen.bulk(c, n + n * (n - 1) // 2)
    for r in {0, n - 1, c['seed'] % n}:
        derivatives(dict(n=n, X=X.tolist() * c['rep'], Jr=th[-n:], r=r, minSize=c['minSize'], dtype=c['dtype']), ctx)
    total(dict(n=n, X=X[:10].tolist(), J=th, minSize=c['minSize']), ctx)
