"""C05: index maps and reshaping of parameters."""
import itertools, math
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, same, close, raises, subsets, nparams

P = Prop('C05', 'system sizes, indices and subsets enumerated exhaustively up to a bound and generated '
         'beyond it; non-trivial: n > 2')


@P.sub('pairs', cases=lambda tier: [dict(n=n) for n in range(2, 41 if tier == 'quick' else 90)], exhaustive=True)
def pairs(case, ctx):
    from coniii.utils import sub_to_ind, ind_to_sub
    n = case['n']
    for k, (i, j) in enumerate(subsets(n, 2)):
        need(sub_to_ind(n, i, j) == k, 'sub_to_ind(%d,%d,%d) = %s, not %d', n, i, j, sub_to_ind(n, i, j), k)
        need(sub_to_ind(n, j, i) == k, 'sub_to_ind(%d,%d,%d) = %s, not %d', n, j, i, sub_to_ind(n, j, i), k)
        need(tuple(ind_to_sub(n, k)) == (i, j), 'ind_to_sub(%d,%d) = %s', n, k, ind_to_sub(n, k))
    for i in range(n):
        raises(lambda: sub_to_ind(n, i, i), 'sub_to_ind with equal indices')
    ctx.trivial(n < 3)


@P.sub('big_pairs', st.one_of(st.integers(2, 1500), st.integers(1500, 3000000)).flatmap(lambda n: st.tuples(
    st.just(n), st.integers(0, n - 1), st.integers(0, n - 1))), quick=1500, thorough=20000)
def big_pairs(case, ctx):
    from coniii.utils import sub_to_ind, ind_to_sub
    n, i, j = case
    if i == j:
        ctx.trivial()
        return
    a, b = min(i, j), max(i, j)
    k = a * n - a * (a + 1) // 2 + b - a - 1
    need(sub_to_ind(n, i, j) == k, 'sub_to_ind(%d,%d,%d) = %s, not %d', n, i, j, sub_to_ind(n, i, j), k)
    if k < 200000:
        need(tuple(ind_to_sub(n, k)) == (a, b), 'ind_to_sub(%d,%d) = %s', n, k, ind_to_sub(n, k))


@P.sub('subsets', cases=lambda tier: [dict(n=n, k=k) for n in range(1, 10 if tier == 'quick' else 14)
                                      for k in range(1, n + 1)], exhaustive=True)
def subset_index(case, ctx):
    from coniii.utils import unravel_index
    n, k = case['n'], case['k']
    for pos, ix in enumerate(subsets(n, k)):
        got = unravel_index(ix, n)
        need(got == pos, 'unravel_index(%s, %d) = %s, not %d', ix, n, got, pos)
        got = unravel_index(tuple(np.array(ix)), n)
        need(got == pos, 'unravel_index of numpy integers %s, %d = %s, not %d', ix, n, got, pos)
        if k == 1:
            need(unravel_index(ix[0], n) == pos and unravel_index(np.int64(ix[0]), n) == pos,
                 'unravel_index of a single integer')
    if k >= 2:
        raises(lambda: unravel_index(tuple(range(k))[::-1], n), 'unravel_index of decreasing indices')
        raises(lambda: unravel_index(tuple(range(n - k + 1, n + 1)), n), 'unravel_index out of range')
    if k >= 2:
        # indices that are not increasing, of which some repeat
        for ix in itertools.islice(itertools.product(range(n), repeat=k), 0, None, max(1, n**k // 400)):
            if any(a >= b for a, b in zip(ix, ix[1:])):
                raises(lambda: unravel_index(ix, n), 'unravel_index of %s' % (ix,))
    ctx.trivial(n < 3)


@P.sub('big_subsets', st.integers(2, 60).flatmap(lambda n: st.tuples(st.just(n), st.sets(
    st.integers(0, n - 1), min_size=1, max_size=6).map(sorted))), quick=1000, thorough=20000)
def big_subsets(case, ctx):
    from coniii.utils import unravel_index
    n, ix = case
    k = len(ix)
    # number of subsets that come earlier
    want = sum(math.comb(n - 1 - v, k - 1 - d) for d in range(k) for v in range(ix[d - 1] + 1 if d else 0, ix[d]))
    need(unravel_index(tuple(ix), n) == want, 'unravel_index(%s, %d) = %s, not %d', ix, n, unravel_index(tuple(ix), n), want)
    ctx.trivial(k < 2)


@P.sub('index_of_order', cases=lambda tier: [[k, n] for n in range(1, 9) for k in range(1, n + 1)], exhaustive=True)
def index_of_order(case, ctx):
    from coniii.enumerate import get_nidx, get_3idx
    k, n = case
    same(np.array(get_nidx(k, n)).T, np.array(subsets(n, k)), 'subsets of %d of %d' % (k, n))
    if k == 3:
        same(np.array(np.where(get_3idx(n))).T, np.array(subsets(n, 3)), 'get_3idx(%d)' % n)
    ctx.trivial(k == n)


@st.composite
def concat_case(draw):
    n = draw(st.integers(1, 9))
    order = draw(st.integers(1, min(n, 5)))
    return dict(n=n, order=order, kind=draw(st.sampled_from(['list', 'array'])),
                start=draw(st.integers(-5, 5)))


@P.sub('split_concat', concat_case, quick=400, thorough=4000)
def split_concat(case, ctx):
    from coniii.utils import split_concat_params
    n, order = case['n'], case['order']
    flat = [float(case['start'] + i) for i in range(nparams(n, order))]
    p = flat if case['kind'] == 'list' else np.array(flat)
    got = split_concat_params(p, n)
    need(len(got) == order, '%d pieces instead of %d', len(got), order)
    pos = 0
    for i, piece in enumerate(got):
        need(list(piece) == flat[pos:pos + math.comb(n, i + 1)], 'order %d is %s', i + 1, piece)
        pos += math.comb(n, i + 1)
    need(pos == len(flat), 'parameters lost')
    ctx.trivial(n < 3 or order < 2)


@P.sub('matrix', st.integers(2, 9).flatmap(lambda n: st.fixed_dictionaries(dict(
    n=st.just(n), theta=gen.theta(n, 5.), diag=gen.vec(n, gen.reals(3.))))), quick=500, thorough=10000)
def matrix(case, ctx):
    from coniii.utils import vec2mat, mat2vec, replace_diag, zero_diag
    n, th = case['n'], np.array(case['theta'])
    orig = th.copy()
    want = np.zeros((n, n))
    for i in range(n):
        want[i, i] = th[i]
    for k, (i, j) in enumerate(subsets(n, 2)):
        want[i, j] = want[j, i] = th[n + k]
    m = vec2mat(th)
    close(m, want, 'vec2mat', rtol=0, atol=0)
    close(mat2vec(m), orig, 'mat2vec(vec2mat)', rtol=0, atol=0)
    close(mat2vec(want), orig, 'mat2vec', rtol=0, atol=0)
    h, J = vec2mat(th, separate_fields=True)
    close(h, orig[:n], 'fields', rtol=0, atol=0)
    off = want.copy()
    off[np.arange(n), np.arange(n)] = 0
    close(J, off, 'couplings', rtol=0, atol=0)
    d = np.array(case['diag'])
    r = want.copy()
    for i in range(n):
        r[i, i] = d[i]
    keep = want.copy()
    close(replace_diag(want, d), r, 'replace_diag', rtol=0, atol=1e-14)
    close(zero_diag(want), off, 'zero_diag', rtol=0, atol=0)
    close(want, keep, 'the argument after replace_diag', rtol=0, atol=0)
    close(th, orig, 'the argument of vec2mat', rtol=0, atol=0)
    # also for matrices that are not symmetric
    a = np.arange(n * n, dtype=float).reshape(n, n)
    b = replace_diag(a, d)
    for i in range(n):
        for j in range(n):
            need(abs(b[i, j] - (d[i] if i == j else a[i, j])) < 1e-10, 'replace_diag at %d,%d', i, j)
    for t in ('int64', 'int8'):                  # whole numbers off the diagonal, any on it
        w = np.rint(a).astype(t)
        b = np.where(np.eye(n, dtype=bool), d[:, None], w)
        close(replace_diag(w, d), b, 'replace_diag of integers', rtol=0, atol=1e-12)
        close(zero_diag(w), w * (1 - np.eye(n)), 'zero_diag of integers', rtol=0, atol=0)
    raises(lambda: replace_diag(want, np.zeros(n + 1)), 'diagonal of the wrong length')
    raises(lambda: replace_diag(want, np.zeros((n, n))), 'diagonal that is a matrix')
    raises(lambda: replace_diag(want, np.zeros((n, 1))), 'diagonal that is a column')
    raises(lambda: vec2mat(np.zeros(len(orig) + 1)), 'vector of impossible length')
    ctx.trivial(n < 3)


@P.sub('multinomial', st.lists(st.integers(0, 12), min_size=1, max_size=6), quick=400, thorough=4000)
def multinomial_(case, ctx):
    from coniii.utils import multinomial
    want = math.factorial(sum(case))
    for a in case:
        want //= math.factorial(a)
    got = multinomial(sum(case), *case)
    need(got == want, 'multinomial(%s) = %s instead of %s', case, got, want)
    raises(lambda: multinomial(sum(case) + 1, *case), 'parts that do not add up')
    ctx.trivial(len(case) < 2)


@P.sub('matrix_larger', lambda: st.fixed_dictionaries(dict(n=st.integers(10, 130), seed=gen.seeds)), quick=40, thorough=600)
def matrix_larger(case, ctx):
    """Sizes that are not written out."""
    r = np.random.RandomState(case['seed'])
    n = case['n']
    matrix(dict(n=n, theta=r.randn(nparams(n)).tolist(), diag=r.randn(n).tolist()), ctx)


@P.sub('split_larger', lambda: st.tuples(st.integers(10, 40), st.integers(1, 4)), quick=40, thorough=400)
def split_larger(case, ctx):
    from coniii.utils import split_concat_params
    n, order = case
    flat = np.arange(nparams(n, order)).astype('float32' if n % 2 else float)
    got = split_concat_params(flat, n)
    need([len(g) for g in got] == [math.comb(n, i) for i in range(1, order + 1)], 'pieces of lengths %s', [len(g) for g in got])
    same(np.concatenate(got), flat, 'the pieces in order')
