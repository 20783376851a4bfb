"""C22: helpers of the {0,1} mean-field module."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vh import gen, mf
from vh.core import Prop
from vh.oracle import need, close, same, states, nparams, monomials, softmax, entropy, subsets, raises

P = Prop('C22', 'generated matrices, data sets, parameters; non-trivial: at least two spins and unequal entries')


def M():
    from coniii import mean_field_ising
    return mean_field_ising


def diag_order(n, keep):
    """Positions along the diagonals, from the main one outwards."""
    return [(i, i + k) for k in range(0 if keep else 1, n) for i in range(n - k)]


@st.composite
def mat_case(draw):
    n = draw(st.integers(1, 7))
    c = dict(n=n, A=draw(gen.vec(n * n, gen.reals(5.))), d=draw(gen.vec(n, gen.reals(5.))))
    c['ints'] = draw(st.booleans())
    c['mult'] = draw(st.sampled_from([None, 2, .5, -1.]))
    return c


@P.sub('matrices', mat_case, quick=400, thorough=10000)
def matrices(c, ctx):
    m, n = M(), c['n']
    A = np.array(c['A']).reshape(n, n)
    if c['ints']:
        A = np.rint(A).astype(int)
    keep = A.copy()
    for kd in (True, False):
        if n == 1 and not kd:
            continue
        ix = diag_order(n, kd)
        same(m.aboveDiagFlat(A, keepDiag=kd), np.array([A[i] for i in ix]), 'flattened (diagonal kept: %s)' % kd)
        if not c['ints'] and c['mult'] is not None:
            want = np.array([A[i] * (1 if i[0] == i[1] else c['mult']) for i in ix])
            close(m.aboveDiagFlat(A, keepDiag=kd, offDiagMult=c['mult']), want, 'flattened and multiplied')
        same(A, keep, 'the matrix (not to be changed)')
    for q, (i, j) in enumerate(diag_order(n, True)):
        need(m.diagFlatIndex(i, j, n) == q, 'diagFlatIndex(%d,%d,%d) is %r instead of %d', i, j, n, m.diagFlatIndex(i, j, n), q)
    fl = m.aboveDiagFlat(A, keepDiag=True)
    same(m.unflatten(fl, n), np.triu(A), 'unflatten')
    close(m.unflatten(fl, n, symmetrize=True), (np.triu(A) + np.triu(A).T) / 2., 'unflatten symmetrized')
    # the inverse up to doubled couplings
    S = A + A.T
    S = S.astype(float)
    close(m.unflatten(m.aboveDiagFlat(S, keepDiag=True, offDiagMult=2), n, symmetrize=True), S, 'flattened with factor 2 and back')
    W = A.copy()
    np.fill_diagonal(W, 0)
    same(m.zeroDiag(A), W, 'zeroDiag')
    W = A.astype(float)
    np.fill_diagonal(W, c['d'])
    close(m.replaceDiag(A, np.array(c['d'])), W, 'replaceDiag')
    raises(lambda: m.replaceDiag(A, np.zeros(n + 1)), 'diagonal of the wrong length')
    raises(lambda: m.replaceDiag(A, np.zeros((n, n))), 'two-dimensional diagonal')
    same(m.symmetrizeUsingUpper(A), np.triu(A) + np.triu(A, 1).T, 'symmetrizeUsingUpper')
    same(A, keep, 'the matrix (not to be changed)')
    ctx.trivial(n == 1)


@st.composite
def cluster_case(draw):
    n = draw(st.integers(1, 7))
    cl = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    return dict(n=n, A=draw(gen.vec(n * n, gen.reals(5.))), cluster=cl)


@P.sub('clusters', cluster_case, quick=200, thorough=5000)
def clusters(c, ctx):
    m, n, cl = M(), c['n'], list(c['cluster'])
    A = np.array(c['A']).reshape(n, n)
    keep = A.copy()
    R = m.coocCluster(A, cl)
    same(R, A[np.ix_(cl, cl)], 'coocCluster')
    F = m.JfullFromCluster(R, cl, n)
    inside = np.zeros((n, n), bool)
    inside[np.ix_(cl, cl)] = True
    same(F, np.where(inside, A, 0), 'JfullFromCluster')
    R[:] = 99
    same(A, keep, 'the matrix (not to be changed)')
    same(cl, c['cluster'], 'the cluster (not to be changed)')
    ctx.trivial(len(cl) < 2 or cl == list(range(n)))


@st.composite
def data_case(draw):
    n = draw(st.integers(1, 5))
    return dict(n=n, X=draw(gen.sample(n, 1, 12, (0, 1))), rep=draw(st.sampled_from([1, 1, 40, 300])),
                dtype=draw(st.sampled_from(['int64', 'int8', 'uint8', 'int32', 'float64', 'bool'])))


@P.sub('cooccurrence', data_case, quick=250, thorough=5000)
def cooccurrence(c, ctx):
    m, n = M(), c['n']
    X = np.repeat(np.array(c['X']), c['rep'], axis=0).astype(c['dtype'])
    keep = X.copy()
    F = X.astype(float)
    N = len(X)
    C = np.array([[(F[:, i] * F[:, j]).mean() for j in range(n)] for i in range(n)])
    close(m.cooccurrence_matrix(X), np.triu(C), 'cooccurrence matrix')
    close(m.cooccurrence_matrix(X, keep_diag=False), np.triu(C, 1), 'cooccurrence matrix without diagonal')
    B = m.coocMatBayesianMean(C, N)
    close(B, (C * N + 1) / (N + 2), 'Laplace mean')
    ix = diag_order(n, True)
    Y = np.array([F[:, i] * F[:, j] for i, j in ix]).T
    if c['dtype'] != 'bool':
        f4 = np.array([[(Y[:, a] * Y[:, b]).mean() for a in range(len(ix))] for b in range(len(ix))])
        close(m.fourthOrderCoocMat(X), f4, 'fourth-order cooccurrences')
        for bm in (True, False):
            g = f4.copy()
            if bm:
                np.fill_diagonal(g, (np.diag(f4) * N + 1) / (N + 2))
            g = g * (1 - g)
            close(m.coocSampleCovariance(X, bayesianMean=bm, includePrior=False), g, 'sample covariance')
            p = n * (n - 1) // 2
            full = np.zeros((len(ix) + p,) * 2)
            full[:len(ix), :len(ix)] = g
            full[len(ix):, len(ix):] = np.eye(p)
            if p:
                close(m.coocSampleCovariance(X, bayesianMean=bm), full, 'sample covariance with prior')
    want = np.array([np.sqrt(B[i] * (1 - B[i]) / N) for i in ix])
    close(m.coocStdevsFlat(C, N), want, 'standard deviations')
    D = np.linspace(0, 1, n * n).reshape(n, n)
    close(m.isingDeltaCooc(X, D), np.array([C[i] - D[i] for i in ix]), 'difference of cooccurrences')
    same(X, keep, 'the data (not to be changed)')
    ctx.tag(c['dtype'])
    ctx.trivial(n < 2 or len(set(map(tuple, c['X']))) < 2)


@st.composite
def model_case(draw):
    n = draw(st.integers(1, 6))
    s = draw(st.sampled_from([.3, 1., 3., 20.]))
    return dict(n=n, J=draw(gen.vec(n * n, gen.reals(s))), hext=draw(st.one_of(st.just(0), gen.vec(n, gen.reals(1.)))),
                minSize=draw(st.integers(0, n)))


@P.sub('exact_model', model_case, quick=250, thorough=5000)
def exact_model(c, ctx):
    m, n = M(), c['n']
    J = np.array(c['J']).reshape(n, n)
    keep = J.copy()
    he = np.array(c['hext']) if isinstance(c['hext'], list) else 0
    S = states(n, False)
    same(np.array(m.fightPossibilities(n)), S, 'states')
    S = S[S.sum(1) >= c['minSize']]
    same(np.array(m.fightPossibilities(n, c['minSize'])), S, 'states of at least %d' % c['minSize'])
    E = np.array([sum(s[i] * s[j] * J[i, j] for i in range(n) for j in range(n)) for s in S]) - S.dot(np.zeros(n) + he)
    close(m.unsummedLogZ(J, hext=he, minSize=c['minSize']), -E, 'log weights', atol=1e-9)
    close(m.unsummedZ(J, hext=he, minSize=c['minSize']) / np.exp(-E), np.ones(len(E)), 'weights', atol=1e-9)
    p = softmax(-E)
    C = np.array([[(p * S[:, i] * S[:, j]).sum() for j in range(n)] for i in range(n)])
    close(m.coocExpectations(J, hext=he, minSize=c['minSize']), np.triu(C), 'expected cooccurrences', atol=1e-9)
    close(m.coocExpectations(J, hext=he, minSize=c['minSize'], zeroBelowDiag=False), C, 'expected cooccurrences, all', atol=1e-9)
    if np.abs(c['J']).max() <= 3:
        S = states(n, False)
        E = np.array([sum(s[i] * s[j] * J[i, j] for i in range(n) for j in range(n)) for s in S])
        close(m.analyticEntropy(J), entropy(softmax(-E)), 'entropy', atol=1e-9)
    same(J, keep, 'the parameters (not to be changed)')
    ctx.tag('no external field', not isinstance(c['hext'], list))
    ctx.trivial(n < 2 or not np.any(J))


@st.composite
def inv_case(draw):
    n = draw(st.integers(1, 4))
    top = draw(st.sampled_from([3, 9, 30]))
    c = dict(n=n, w=draw(st.lists(st.integers(1, top), min_size=2 ** n, max_size=2 ** n)))
    c['init'] = draw(st.one_of(st.none(), gen.vec(n * n, gen.smooth(.5))))
    c['bayes'] = draw(st.booleans())
    return c


@P.sub('inverse', inv_case, quick=60, thorough=1500)
def inverse(c, ctx):
    """The exact solution reproduces the cooccurrences."""
    m, n = M(), c['n']
    X = np.repeat(states(n, False), c['w'], axis=0)
    N = len(X)
    U = mf.cooc(X)
    keep = U.copy()
    kw = {}
    want = U
    if c['bayes']:
        kw = dict(bayesianMean=True, numSamples=N)
        want = (U * N + 1) / (N + 2)
    if c['init'] is not None:
        A = np.array(c['init']).reshape(n, n)
        kw['Jinit'] = A + A.T
    J = m.findJmatrixAnalytic_CoocMat(U, **kw)
    same(J, J.T, 'symmetric parameters')
    x = mf.from_matrix(J)
    S = states(n, False)
    p = softmax(monomials(S).dot(x))
    close(p.dot(monomials(S)), mf.flat(want), 'cooccurrences of the solution', rtol=0, atol=1e-6)
    close(J, mf.to_matrix(mf.maxent(mf.flat(want), n)[0], n), 'solution', rtol=1e-3, atol=1e-3)
    same(U, keep, 'the cooccurrences (not to be changed)')
    ctx.tag('corrected', c['bayes'])
    ctx.trivial(n == 1)


@st.composite
def prior_case(draw):
    n = draw(st.integers(2, 3))
    return dict(n=n, w=draw(st.lists(st.integers(1, 9), min_size=2 ** n, max_size=2 ** n)),
                lmbda=draw(st.sampled_from([.1, 1., 10.])))


@P.sub('inverse_with_prior', prior_case, quick=25, thorough=500)
def inverse_with_prior(c, ctx):
    """With a prior the sum of squared deviations and squared penalties is smallest."""
    m, n = M(), c['n']
    X = np.repeat(states(n, False), c['w'], axis=0)
    U = mf.cooc(X)
    gamma = c['lmbda'] / len(X)
    J = m.findJmatrixAnalytic_CoocMat(U, priorLmbda=c['lmbda'], numSamples=len(X))
    C = mf.flat(U)
    f = C[:n]
    v = np.array([f[i] * (1 - f[i]) * f[j] * (1 - f[j]) for i, j in subsets(n, 2)])
    S = monomials(states(n, False))

    def cost(x):
        d = softmax(S.dot(x)).dot(S) - C
        return (d ** 2).sum() + ((gamma * v * x[n:] ** 2) ** 2).sum()
    x = mf.from_matrix(J)
    best = cost(x)
    ref = mf.maxent(C, n)[0]
    need(best <= cost(ref) + 1e-9, 'cost %r is above that of the solution without prior (%r)', best, cost(ref))
    for i in range(len(x)):
        for e in (-1e-2, 1e-2):
            y = x.copy()
            y[i] += e
            need(best <= cost(y) + 1e-9, 'cost %r falls to %r by moving parameter %d', best, cost(y), i)


@st.composite
def smf_case(draw):
    n = draw(st.integers(2, 5))
    c = dict(n=n, w=draw(st.lists(st.integers(1, draw(st.sampled_from([2, 9, 40]))), min_size=2 ** n, max_size=2 ** n)))
    c['cluster'] = draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    c['lmbda'] = draw(st.sampled_from([0, 0, .1, 1., 30.]))
    c['sym'] = draw(st.booleans())
    c['opt'] = draw(st.sampled_from(['', 'alternate', 'plain', 'noind']))
    return c


@P.sub('mean_field', smf_case, quick=250, thorough=5000)
def mean_field(c, ctx):
    m, n = M(), c['n']
    X = np.repeat(states(n, False), c['w'], axis=0)
    N = len(X)
    U = mf.cooc(X)
    given = U + np.triu(U, 1).T if c['sym'] else U.copy()
    keep = given.copy()
    cl = list(range(n)) if c['cluster'] is None else list(c['cluster'])
    kw = {}
    if c['lmbda']:
        kw.update(meanFieldPriorLmbda=c['lmbda'], numSamples=N)
    if c['opt'] == 'plain':
        kw.update(useRegularizedEq=False)
    S0, J0 = mf.mean_field(U, cl, c['lmbda'] / N)
    cls = sorted(cl)
    if c['opt'] == 'alternate':
        kw.update(alternateEnt=True)
        R = J0[np.ix_(cls, cls)]
        S0 = entropy(softmax(monomials(states(len(cls), False)).dot(mf.from_matrix(R))))
    if c['opt'] == 'noind':
        kw.update(indTerm=False)
        f = np.diag(U)[cls]
        S0 -= -(f * np.log(f) + (1 - f) * np.log(1 - f)).sum()
        J0 = J0 + mf.full(np.diag(np.log(f / (1 - f))), cls, n)
    # an upper triangle can only be read in ascending order
    order = cl if c['sym'] else cls
    S, J = m.SmeanField(list(order), given, **kw)
    close(S, S0, 'mean-field entropy', rtol=1e-7, atol=1e-8)
    close(J, J0, 'mean-field parameters', rtol=1e-7, atol=1e-7)
    same(given, keep, 'the cooccurrences (not to be changed)')
    if c['cluster'] is None:
        close(m.JmeanField(given, **kw), J0, 'JmeanField', rtol=1e-7, atol=1e-7)
    f = np.diag(given)[order]
    A = -2 * J[np.ix_(order, order)]
    np.fill_diagonal(A, 0)
    close(m.meanFieldStability(J[np.ix_(order, order)], f), np.abs(np.linalg.eigvals(A * (f * (1 - f))[None, :])).max(), 'stability', rtol=1e-6, atol=1e-7)
    ctx.tag(c['opt'] or 'default')
    ctx.tag('prior', c['lmbda'] > 0)
    ctx.trivial(len(cl) == 1)


@st.composite
def indep_case(draw):
    n = draw(st.integers(2, 5))
    return dict(n=n, f=draw(gen.vec(n, st.integers(1, 99).map(lambda i: i / 100.))), perm=draw(st.permutations(range(n))),
                w=draw(st.lists(st.integers(1, 9), min_size=2 ** n, max_size=2 ** n)))


@P.sub('symmetries', indep_case, quick=100, thorough=2000)
def symmetries(c, ctx):
    """Independent spins need no couplings; relabelled spins get relabelled parameters."""
    m, n = M(), c['n']
    f = np.array(c['f'])
    C = np.outer(f, f)
    np.fill_diagonal(C, f)
    for g in (0, 1.):
        S, J = m.SmeanField(list(range(n)), C, meanFieldPriorLmbda=g, numSamples=10)
        close(J, np.diag(-np.log(f / (1 - f))), 'parameters of independent spins', atol=1e-8)
        close(S, -(f * np.log(f) + (1 - f) * np.log(1 - f)).sum(), 'entropy of independent spins', atol=1e-8)
    X = np.repeat(states(n, False), c['w'], axis=0)
    pi = list(c['perm'])
    for kw in (dict(), dict(meanFieldPriorLmbda=2., numSamples=20)):
        J = m.JmeanField(mf.cooc(X), **kw)
        close(m.JmeanField(mf.cooc(X[:, pi]), **kw), J[np.ix_(pi, pi)], 'parameters of relabelled spins', rtol=1e-7, atol=1e-7)
    ctx.trivial(pi == sorted(pi))


@st.composite
def hom_case(draw):
    N = draw(st.integers(2, 12))
    return dict(N=N, h=draw(st.integers(-100, 100)) / 100., J=draw(st.integers(2, 80)) / 80. / N,
                x=draw(st.floats(-800, 800)), T=draw(st.sampled_from([.3, 1., 2.])))


@P.sub('homogeneous', hom_case, quick=50, thorough=1500)
def homogeneous(c, ctx):
    """Weights exp(h sum s + J (sum s)^2) over +-1 spins."""
    from math import comb
    m, N, h, J = M(), c['N'], c['h'], c['J']
    k = np.arange(N + 1)
    S = 2. * k - N
    deg = np.array([comb(N, int(i)) for i in k], float)
    p = deg * np.exp(h * S + J * S ** 2)
    p /= p.sum()
    av = (p * S).sum() / N
    ent = -(p * np.log(p / deg)).sum()
    T = dict(rtol=1e-6, atol=1e-6)
    close(m.avgxHomogeneous(h, J, N), av, 'mean spin', **T)
    close(m.avgmHomogeneous(h, J, N), av, 'mean field', **T)
    close(m.SHomogeneous(h, J, N), ent, 'entropy', **T)
    a, b = (1 + av) / 2, (1 - av) / 2
    ind = -N * (a * np.log(a) + b * np.log(b))
    close(m.independentEntropyHomogeneous(h, J, N), ind, 'independent entropy', **T)
    close(m.independentEntropyHomogeneous2(h, J, N), ind, 'independent entropy, second form', **T)
    close(m.multiInfoHomogeneous(h, J, N), ind - ent, 'multi-information', **T)
    x = c['x']
    close(m.logCosh(x), np.logaddexp(x, -x) - np.log(2), 'logCosh', atol=1e-12)
    mr = m.m(h, J, N, c['T'])
    close(mr, 1 / (1 + np.exp((h + 2 * (N - 1) * mr * J) / c['T'])), 'self-consistent mean', rtol=0, atol=1e-8)
    ctx.tag('strong coupling', J * N > .5)


@P.sub('many_spins', gen.large(6, 24, rows=200, vals=((0, 1),), rep=st.sampled_from([1, 1, 30]), dtype=st.sampled_from(['int64', 'int8', 'float64']),
                               ints=st.booleans()), quick=20, thorough=400)
def many_spins(c, ctx):
    """The same identities at sizes that are used in practice."""
    X = gen.bulk(c, 1)[1]
    n = c['n']
    cooccurrence(dict(n=min(n, 12), X=X[:, :12].tolist(), rep=c['rep'], dtype=c['dtype']), ctx)
    m = M()
    F = X.astype(float)
    close(m.cooccurrence_matrix(X.astype(c['dtype'])), np.triu(F.T.dot(F) / len(X)), 'cooccurrence matrix')
    r = np.random.RandomState(c['seed'])
    matrices(dict(n=n, A=r.uniform(-9, 9, n * n), d=r.randn(n), ints=c['ints'], mult=2), ctx)
    clusters(dict(n=n, A=r.randn(n * n), cluster=r.permutation(n)[:r.randint(2, n)].tolist()), ctx)


@P.sub('exact_model_larger', lambda: st.fixed_dictionaries(dict(n=st.integers(7, 10), seed=gen.seeds, scale=st.sampled_from([.2, 1., 10.]), hext=st.booleans(), minSize=st.integers(0, 10))),
       quick=16, thorough=200)
def exact_model_larger(c, ctx):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    exact_model(dict(n=n, J=(r.uniform(-1, 1, n * n) * c['scale']).tolist(), hext=r.randn(n).tolist() if c['hext'] else 0, minSize=min(n, c['minSize'])), ctx)


@P.sub('matrices_larger', lambda: st.fixed_dictionaries(dict(n=st.integers(8, 24), seed=gen.seeds, ints=st.booleans(), mult=st.sampled_from([None, 2, .5, -1.]))), quick=30, thorough=500)
def matrices_larger(c, ctx):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    matrices(dict(c, A=(r.randn(n * n) * 5).tolist(), d=r.randn(n).tolist()), ctx)
    clusters(dict(n=n, A=r.randn(n * n).tolist(), cluster=r.permutation(n)[:r.randint(2, n + 1)].tolist()), ctx)
    ctx.trivial(False)


@P.sub('mean_field_larger', lambda: st.fixed_dictionaries(dict(n=st.integers(6, 11), seed=gen.seeds, top=st.sampled_from([3, 10, 40]), part=st.booleans(),
       lmbda=st.sampled_from([0, 0, .1, 1., 30.]), sym=st.booleans(), opt=st.sampled_from(['', 'alternate', 'plain', 'noind']))), quick=30, thorough=500)
def mean_field_larger(c, ctx):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    w = r.randint(1, c['top'], size=2 ** n)
    mean_field(dict(c, w=w.tolist(), cluster=r.permutation(n)[:r.randint(1, n + 1)].tolist() if c['part'] else None), ctx)
    symmetries(dict(n=n, f=(r.randint(1, 100, size=n) / 100.).tolist(), perm=r.permutation(n).tolist(), w=w.tolist()), ctx)
    ctx.trivial(False)
