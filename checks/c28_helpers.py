"""C28: cluster search, products, bonds, and helpers of the vector-spin model."""
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, close, same, subsets, binom_ok

P = Prop('C28', 'generated graphs, spins, couplings and angles; non-trivial: at least three vertices or spins and at least one edge '
         'or coupling')


@st.composite
def graph(draw):
    n = draw(st.integers(1, 14))
    m = draw(st.integers(0, 2 * n))
    e = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=m))
    return dict(n=n, edges=[list(x) for x in e], kind=draw(st.sampled_from(['int', 'bool', 'float', 'negative', 'signed', 'tiny'])))


@P.sub('iter_cluster', graph, quick=1500, thorough=30000)
def clusters(case, ctx):
    from coniii.samplers import iter_cluster
    n = case['n']
    A = np.zeros((n, n))
    for i, j in case['edges']:
        # any value but zero is an edge
        A[i, j] = A[j, i] = {'float': .5, 'negative': -1, 'signed': (-1) ** (i + j) * (1 + i * j % 3), 'tiny': 1e-3 - 2e-3 * (i < j)}.get(case['kind'], 1)
    if case['kind'] in ('negative', 'signed'):
        A = A.astype('int8')
    elif case['kind'] in ('int', 'bool'):
        A = A.astype(case['kind'])
    keep = A.copy()
    got = iter_cluster(A)
    same(A, keep, 'the given matrix')
    # reference: union-find
    root = list(range(n))
    def find(i):
        while root[i] != i:
            i = root[i]
        return i
    for i, j in case['edges']:
        root[find(i)] = find(j)
    want = {}
    for i in range(n):
        want.setdefault(find(i), set()).add(i)
    flat = [int(i) for c in got for i in c]
    ctx.tag(case['kind'])
    need(sorted(flat) == list(range(n)), 'vertices are listed as %s', flat)
    need(sorted(sorted(map(int, c)) for c in got) == sorted(sorted(c) for c in want.values()), 'clusters %s instead of %s', got,
         list(want.values()))
    ctx.tag('several clusters', len(want) > 1)
    ctx.trivial(n < 3 or not case['edges'])


@st.composite
def bonds_case(draw):
    n = draw(st.integers(2, 9))
    m = n * (n - 1) // 2
    return dict(n=n, s=draw(gen.spins(n)), J=draw(gen.vec(m, st.sampled_from([-1.5, -.2, 0., .3, 1.]))),
                p=draw(gen.vec(m, st.integers(0, 8).map(lambda i: i / 8.))), r=draw(gen.vec(m, st.integers(0, 15).map(lambda i: i / 16. + 1 / 64.))))


@P.sub('bonds_and_products', bonds_case, quick=800, thorough=20000)
def bonds(case, ctx):
    from coniii.samplers import pairwise_prod, sample_bonds
    n = case['n']
    s = np.array(case['s'])
    pr = np.array([s[i] * s[j] for i, j in subsets(n, 2)])
    same(pairwise_prod(s), pr, 'pairwise products')
    x = np.arange(n) * .37 - 1
    close(pairwise_prod(x), [x[i] * x[j] for i, j in subsets(n, 2)], 'pairwise products of reals')
    J, p, r = (np.array(case[k], float) for k in 'Jpr')
    want = (J * pr > 0) & (r < p)
    same(sample_bonds(p, r, s, J), want.astype(int), 'bonds')
    ctx.trivial(n < 3 or not want.any())


@st.composite
def vector_case(draw):
    n = draw(st.integers(2, 6))
    return dict(n=n, J=draw(gen.vec(n * (n - 1) // 2, gen.smooth(2.))),
                x=[draw(st.integers(0, 1000)) * (np.pi if i % 2 == 0 else 2 * np.pi) / 1000. for i in range(2 * n)])


@P.sub('vector_spins', vector_case, quick=300, thorough=6000)
def vector_spins(case, ctx):
    from coniii.samplers import calc_e, grad_e, grad_e_theta
    n, J, x = case['n'], np.array(case['J'], float), np.array(case['x'], float)
    def vec(x):
        t, p = x[::2], x[1::2]
        return np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)]).T
    dots = lambda x: np.array([vec(x)[i].dot(vec(x)[j]) for i, j in subsets(n, 2)])
    E = lambda x: -J.dot(dots(x))
    close(calc_e(J, x), E(x), 'energy', atol=1e-9)
    close(grad_e_theta(J, x), -dots(x), 'derivative with respect to couplings', atol=1e-9)
    h = 1e-5
    num = [(E(x + h * d) - E(x - h * d)) / (2 * h) for d in np.eye(2 * n)]
    close(grad_e(J, x), num, 'derivative with respect to angles', rtol=1e-5, atol=1e-7)
    ctx.trivial(n < 3 or not J.any())


@st.composite
def near_case(draw):
    return dict(t=draw(st.integers(0, 100)) * np.pi / 100, p=draw(st.integers(0, 100)) * 2 * np.pi / 100, seed=draw(gen.seeds),
                sigma=draw(st.sampled_from([0., .05, .2, .5])), N=draw(st.sampled_from([1, 400])))


@P.sub('nearby_vectors', near_case, quick=150, thorough=2000)
def nearby(case, ctx):
    from coniii.samplers import jit_sample_nearby_vector
    t, p, N = case['t'], case['p'], case['N'] if case['sigma'] else 1
    v = np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
    R = jit_sample_nearby_vector(case['seed'], v, N, t, p, case['sigma'])
    need(R.shape == (N, 3), 'shape %s', R.shape)
    close((R**2).sum(1), np.ones(N), 'squared lengths', atol=1e-9)
    same(R, jit_sample_nearby_vector(case['seed'], v, N, t, p, case['sigma']), 'vectors for the same seed')
    if not case['sigma']:
        close(R[0], v, 'vector for no spread', atol=1e-9)
    elif N > 1:
        from scipy.stats import kstest, halfnorm
        a = np.arccos(np.clip(R.dot(v), -1, 1))
        need(kstest(a, halfnorm(scale=case['sigma']).cdf).pvalue > 1e-9, 'angles to the given vector are not normal with sigma=%g', case['sigma'])
        # directions around v are uniform
        e1 = np.array([np.cos(t) * np.cos(p), np.cos(t) * np.sin(p), -np.sin(t)])
        e2 = np.array([-np.sin(p), np.cos(p), 0])
        ang = np.arctan2(R.dot(e2), R.dot(e1))
        need(kstest((ang + np.pi) / (2 * np.pi), 'uniform').pvalue > 1e-9, 'directions around the given vector are not uniform')
    ctx.trivial(not case['sigma'])


@P.sub('large_graphs', lambda: st.fixed_dictionaries(dict(n=st.integers(15, 160), seed=gen.seeds, shape=st.sampled_from(['random', 'path', 'star', 'blocks', 'full']),
                                                         density=st.sampled_from([.3, 1., 2.]), kind=st.sampled_from(['int', 'bool', 'float', 'negative', 'signed', 'tiny']))), quick=60, thorough=1000)
def large_graphs(c, ctx):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    p = r.permutation(n)
    if c['shape'] == 'random':
        e = r.randint(0, n, (int(n * c['density'] / 2) + 1, 2))
    elif c['shape'] == 'path':
        e = np.array([p[:-1], p[1:]]).T
    elif c['shape'] == 'star':
        e = np.array([np.full(n - 1, p[0]), p[1:]]).T
    elif c['shape'] == 'blocks':
        b = r.randint(0, 4, n)
        e = np.array([(i, j) for i in range(n) for j in range(i) if b[i] == b[j]] or [(0, 0)])
    else:
        e = np.array([(i, j) for i in range(min(n, 50)) for j in range(i)])
    clusters(dict(n=n, edges=e.tolist(), kind=c['kind']), ctx)
    s = r.choice([-1, 1], size=n)
    J, q, u = r.randn(n * (n - 1) // 2), r.rand(n * (n - 1) // 2), r.rand(n * (n - 1) // 2)
    bonds(dict(n=n, s=s, J=J, p=q, r=u), ctx)
    ctx.tag(c['shape'])


@P.sub('energies_and_frequencies', st.fixed_dictionaries(dict(n=st.integers(2, 5), seed=gen.seeds,
                                                              N=st.one_of(st.integers(1, 80), st.integers(200, 3000), st.integers(70000, 150000)))), quick=60, thorough=1000)
def energies_and_frequencies(case, ctx):
    """check_e_logp: the observed states once each, their energies and the logarithms of their frequencies."""
    from checks.c10_python_chains import check_e_logp_
    check_e_logp_(case, ctx)
