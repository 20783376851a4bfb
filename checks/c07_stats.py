"""C07: empirical statistics of data agree with their definitions, for every option."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import need, close, same, raises, subsets

P = Prop('C07', 'generated data sets (all entry types, missing entries as 0, duplicate rows) with every '
         'combination of options; non-trivial: at least two distinct rows and two columns')
DT = ['int8', 'int16', 'int32', 'int64', 'float64']


@st.composite
def data(draw):
    n = draw(st.integers(2, 6))
    vals = draw(st.sampled_from([(-1, 1), (0, 1), (-1, 0, 1)]))
    pool = draw(gen.sample(n, 1, 5, vals))
    X = draw(st.lists(st.one_of(st.sampled_from(pool), gen.spins(n, vals)), min_size=1, max_size=14))
    R = len(X)
    w = draw(st.sampled_from(['none', 'array', 'float', 'tuple', 'exclude']))
    case = dict(n=n, X=X, dtype=draw(st.sampled_from(DT)), w=w, sub=draw(st.booleans()),
                laplace=draw(st.booleans()), rep=draw(st.sampled_from([1, 1, 1, 40, 300])))
    pos = st.integers(0, 40).map(lambda i: i / 16.)
    if w == 'array':
        case['weights'] = draw(gen.vec(R, pos))
    elif w == 'float':
        case['weights'] = draw(pos)
    elif w == 'tuple':
        case['weights'] = [draw(gen.vec(n, pos)), draw(gen.vec(n * (n - 1) // 2, pos))]
    return case


@P.sub('pair_corr', data, quick=1500, thorough=40000)
def pair_corr_(case, ctx):
    from coniii.utils import pair_corr
    n, rep = case['n'], case['rep']
    X = np.array(case['X'] * rep)
    R = len(X)
    w, kw = None, {}
    Xf = X.astype(float)
    ones = np.ones(R)
    cols = [Xf[:, i] for i in range(n)]
    prods = [Xf[:, i] * Xf[:, j] for i, j in subsets(n, 2)]
    kind = case['w']
    if kind == 'none':
        si, sisj = [c.mean() for c in cols], [p.mean() for p in prods]
        kw = dict(laplace_count=case['laplace'])
    elif kind == 'array':
        w = np.array(case['weights'] * rep)
        si, sisj = [(c * w).sum() for c in cols], [(p * w).sum() for p in prods]
    elif kind == 'float':
        w = case['weights']
        si, sisj = [c.sum() * w for c in cols], [p.sum() * w for p in prods]
    elif kind == 'tuple':
        w = (np.array(case['weights'][0]), np.array(case['weights'][1]))
        si = [c.sum() * f for c, f in zip(cols, w[0])]
        sisj = [p.sum() * f for p, f in zip(prods, w[1])]
    else:
        kw = dict(exclude_empty=True, laplace_count=case['laplace'])
        a, b = (2, 4) if case['laplace'] else (0, 0)
        with np.errstate(all='ignore'):
            si = [c.sum() / (np.float64((c != 0).sum()) + a) for c in cols]
            sisj = [p.sum() / (np.float64((p != 0).sum()) + b) for p in prods]
        ctx.tag('some pair is never seen', not np.all(np.isfinite(si + sisj)))
    si, sisj = np.array(si), np.array(sisj)
    if case['sub']:
        sisj = sisj - np.array([si[i] * si[j] for i, j in subsets(n, 2)])
    Y = X.astype(case['dtype'])
    keep = Y.copy()
    if kind == 'none':
        got = pair_corr(Y, subtract_mean=case['sub'], **kw)
        cat = pair_corr(Y, subtract_mean=case['sub'], concat=True, **kw)
    else:
        got = pair_corr(Y, weights=w, subtract_mean=case['sub'], **kw)
        cat = pair_corr(Y, weights=w, subtract_mean=case['sub'], concat=True, **kw)
    close(got[0], si, 'means (%s, %s)' % (kind, case['dtype']), rtol=1e-8, atol=1e-9)
    close(got[1], sisj, 'pair correlations (%s, %s)' % (kind, case['dtype']), rtol=1e-8, atol=1e-9)
    close(cat, np.concatenate([si, sisj]), 'concatenated', rtol=1e-8, atol=1e-9)
    same(Y, keep, 'the given data')
    ctx.tag('weights ' + kind)
    ctx.tag('subtract_mean', case['sub'])
    ctx.tag('zeros in data', 0 in Y)
    ctx.tag('more than 127 rows in a small integer type', R > 127 and case['dtype'] == 'int8')
    ctx.trivial(len(set(map(tuple, case['X']))) < 2)
    raises(lambda: pair_corr(Y + 5), 'entries that are not spins')


@st.composite
def kdata(draw):
    c = draw(data())
    c['k'] = draw(st.integers(1, c['n']))
    c['w'] = draw(st.sampled_from(['none', 'array', 'exclude']))
    if c['w'] == 'array':
        c['weights'] = draw(gen.vec(len(c['X']), st.integers(0, 40).map(lambda i: i / 16.)))
    return c


@P.sub('k_corr', kdata, quick=1000, thorough=20000)
def k_corr_(case, ctx):
    from coniii.utils import k_corr, pair_corr
    n, k = case['n'], case['k']
    X = np.array(case['X'])
    Y = X.astype(case['dtype'])
    want = []
    w = np.array(case['weights']) if case['w'] == 'array' else np.ones(len(X)) / len(X)
    for ix in subsets(n, k):
        p = np.array([float(np.prod([row[i] for i in ix])) for row in X])
        if case['w'] == 'exclude':
            q = p[p != 0]
            want.append(q.sum() / len(q) if len(q) else np.nan)
        else:
            want.append((p * w).sum())
    kw = dict(weights=w) if case['w'] == 'array' else dict(exclude_empty=case['w'] == 'exclude')
    got = k_corr(Y, k, **kw)
    close(got, np.array(want), 'k_corr order %d (%s)' % (k, case['w']), rtol=1e-8, atol=1e-9)
    if k <= 2:
        close(got, pair_corr(Y, **kw)[k - 1], 'k_corr and pair_corr', rtol=1e-8, atol=1e-9)
    ctx.tag('order %d' % k)
    ctx.tag('weights ' + case['w'])
    ctx.trivial(len(set(map(tuple, case['X']))) < 2)


@st.composite
def probs(draw):
    n = draw(st.integers(1, 4))
    vals = draw(st.sampled_from([(-1, 1), (0, 1), (0, 1, 2)]))
    pool = draw(gen.sample(n, 1, 6, vals))
    X = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=25))
    return dict(n=n, X=X, vals=list(vals), dtype=draw(st.sampled_from(DT)), given=draw(st.sampled_from(['no', 'all', 'some'])),
                norm=draw(st.booleans()), flat=draw(st.booleans()), order=draw(st.integers(0, 10)),
                negzero=draw(st.booleans()),
                weights=draw(st.one_of(st.none(), gen.vec(len(X), st.integers(1, 40).map(lambda i: i / 8.)))))


def signed(case):
    """The data; zeros of floating point data may be negative."""
    X = np.array(case['X']).astype(case['dtype'])
    if X.dtype.kind == 'f' and case['negzero']:
        X[1::2][X[1::2] == 0] = -0.
    return X


@P.sub('state_probs', probs, quick=1200, thorough=20000)
def state_probs_(case, ctx):
    from coniii.utils import state_probs
    X = signed(case)
    n = case['n']
    w = np.array(case['weights']) if case['weights'] is not None else np.ones(len(X))
    count = {}
    for row, f in zip(map(tuple, X.tolist()), w):
        count[row] = count.get(row, 0.) + f
    arg = X[:, 0] if (n == 1 and case['flat']) else X
    kw = dict(weights=None if case['weights'] is None else w, normalized=case['norm'])
    if case['given'] == 'no':
        p, s = state_probs(arg, **kw)
        rows = list(map(tuple, np.asarray(s).tolist()))
        need(len(rows) == len(set(rows)), 'states listed twice: %s', rows)
        need(set(rows) == set(count), 'states %s instead of %s', rows, sorted(count))
    else:
        allst = list(itertools.product(case['vals'], repeat=n))
        if case['given'] == 'some':
            allst = sorted(count)[:max(1, len(count) - 1)] + [r for r in allst if r not in count][:2]
        allst = allst[case['order'] % len(allst):] + allst[:case['order'] % len(allst)]
        p = state_probs(arg, allstates=np.array(allst).astype(case['dtype']), **kw)
        rows = [tuple(float(x) for x in r) for r in allst]
        count = {tuple(float(x) for x in r): v for r, v in count.items()}
        ctx.tag('some states not listed', case['given'] == 'some')
    want = np.array([count.get(r, 0.) for r in rows])
    if case['norm']:
        want = want / want.sum()
    close(p, want, 'state_probs (states given: %s)' % case['given'], rtol=1e-9, atol=1e-12)
    ctx.tag('weighted', case['weights'] is not None)
    ctx.trivial(len(count) < 2)


@P.sub('unique_rows', probs, quick=600, thorough=10000)
def unique_rows_(case, ctx):
    from coniii.utils import unique_rows
    X = signed(case)
    ix = np.asarray(unique_rows(X))
    inv = np.asarray(unique_rows(X, return_inverse=True)).ravel()
    rows = list(map(tuple, X.tolist()))
    u = [rows[i] for i in ix]
    need(len(set(u)) == len(u) and set(u) == set(rows), 'unique rows are %s of %s', u, rows)
    need(len(inv) == len(rows), 'inverse has length %d', len(inv))
    need([u[i] for i in inv] == rows, 'inverse does not restore the data')
    ctx.trivial(len(u) < 2 or len(u) == len(rows))


@st.composite
def overlap_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 8, 130, 200]))
    R = draw(st.integers(1, 6))
    if n < 10:
        X = draw(gen.sample(n, R, R, (-1, 0, 1)))
    else:
        base = draw(gen.sample(3, R, R, (-1, 0, 1)))
        X = [[r[i % 3] if i % 7 else 1 for i in range(n)] for r in base]
    return dict(X=X, dtype=draw(st.sampled_from(DT)), zeros=draw(st.booleans()))


@P.sub('overlap', overlap_case, quick=500, thorough=5000)
def overlap(case, ctx):
    from coniii.utils import calc_overlap
    X = np.array(case['X'])
    R, n = X.shape
    want = np.zeros((R, R))
    with np.errstate(all='ignore'):
        for a in range(R):
            for b in range(R):
                norm = n
                if case['zeros']:
                    norm = min(int((X[a] != 0).sum()), int((X[b] != 0).sum()))
                want[a, b] = np.float64(sum(int(x) * int(y) for x, y in zip(X[a], X[b]))) / norm
    got = calc_overlap(X.astype(case['dtype']), ignore_zeros=case['zeros'])
    close(got, want, 'calc_overlap', rtol=1e-9, atol=1e-12)
    ctx.trivial(R < 2)
    ctx.tag('more than 127 spins', n > 127)


@P.sub('huge', st.fixed_dictionaries(dict(seed=gen.seeds, wide=st.booleans(), dtype=st.sampled_from(DT), weights=st.booleans(),
                                           at=st.sampled_from([0., .3, .999]))), quick=10, thorough=100)
def huge(case, ctx):
    """More rows or columns than small integers can count."""
    from coniii.utils import pair_corr, k_corr, unique_rows, state_probs
    r = np.random.RandomState(case['seed'])
    R, n = (r.randint(2, 30), r.randint(250, 520)) if case['wide'] else (r.randint(66000, 70000), r.randint(2, 5))
    X = r.choice([-1, 1], size=(R, n), p=[.3, .7])
    if case['wide']:
        X[R // 2:] = X[r.randint(0, R, R - R // 2)]
        X[-1] = X[0]
        X[-1, r.choice([0, n - 1, n // 2])] *= -1
        if R > 3:        # states that differ in exactly 256 places
            X[1] = X[0]
            X[1, r.permutation(n)[:256]] *= -1
    Y = X.astype(case['dtype'])
    w = r.randint(1, 40, R) / 8. if case['weights'] else None
    u, inv = np.unique(X, axis=0, return_inverse=True)
    count = np.bincount(inv.ravel(), weights=w)
    p = state_probs(Y, allstates=u.astype(case['dtype']), weights=w, normalized=False)
    close(p, count, 'state_probs with given states')
    p, s = state_probs(Y, weights=w)
    order = np.lexsort(np.asarray(s).astype(int).T[::-1])
    same(np.asarray(s).astype(int)[order], u, 'states')
    close(np.asarray(p)[order], count / count.sum(), 'state_probs')
    same(X[np.asarray(unique_rows(Y))][np.asarray(unique_rows(Y, return_inverse=True)).ravel()], X, 'unique rows restored')
    F = X.astype(float)
    v = np.ones(R) / R if w is None else w
    k = np.triu_indices(n, 1)
    a, b = pair_corr(Y, **({} if w is None else dict(weights=w)))
    close(a, v.dot(F), 'means', rtol=1e-8, atol=1e-8)
    close(b, F.T.dot(F * v[:, None])[k], 'pair correlations', rtol=1e-8, atol=1e-8)
    Y[int(case['at'] * R), r.randint(n)] = 7
    raises(lambda: pair_corr(Y), 'entries that are not spins')
    raises(lambda: k_corr(Y, 1), 'entries that are not spins')
    ctx.tag('wide' if case['wide'] else 'long')


@P.sub('many_columns', gen.large(7, 140, rows=400, vals=((-1, 1), (0, 1), (-1, 0, 1), (0, 1, 2, 3)), dtype=st.sampled_from(DT), weights=st.booleans(),
                                 norm=st.booleans(), exclude=st.booleans(), sub=st.booleans()), quick=80, thorough=1500)
def many_columns(case, ctx):
    from coniii.utils import pair_corr, k_corr, unique_rows, state_probs, calc_overlap
    n, R = case['n'], case['R']
    X = gen.bulk(case, 1)[1]
    Y = X.astype(case['dtype'])
    r = np.random.RandomState(case['seed'] % 1000)
    near = r.randint(0, R, R)                     # rows that differ from another one in a single place, possibly the last
    Y[R // 2:] = Y[near[R // 2:]]
    for i in range(R // 2, R):
        if r.rand() < .5:
            Y[i, r.choice([0, n - 1, n // 2])] = case['vals'][r.randint(len(case['vals']))]
    X = Y.astype(int)
    rows = list(map(tuple, X.tolist()))
    ix, inv = np.asarray(unique_rows(Y)), np.asarray(unique_rows(Y, return_inverse=True)).ravel()
    u = [rows[i] for i in ix]
    need(len(set(u)) == len(u) and set(u) == set(rows), '%d unique rows of %d', len(u), len(set(rows)))
    need([u[i] for i in inv] == rows, 'inverse does not restore the data')
    w = r.randint(1, 40, R) / 8. if case['weights'] else None
    count = {}
    for row, f in zip(rows, np.ones(R) if w is None else w):
        count[row] = count.get(row, 0.) + f
    z = sum(count.values()) if case['norm'] else 1.
    p, s = state_probs(Y, weights=w, normalized=case['norm'])
    got = list(map(tuple, np.asarray(s).astype(int).tolist()))
    need(len(set(got)) == len(got) and set(got) == set(count), 'states of state_probs differ from those of the data')
    close(p, [count[g] / z for g in got], 'state_probs')
    known = sorted(count)
    p = state_probs(Y, allstates=np.array(known).astype(case['dtype']), weights=w, normalized=case['norm'])
    close(p, [count[g] / z for g in known], 'state_probs with given states')
    if max(case['vals']) < 2:
        Xf = X.astype(float)
        prods = np.array([Xf[:, i] * Xf[:, j] for i, j in subsets(n, 2)]).T
        if w is not None:
            kw, si, sisj = dict(weights=w), w.dot(Xf), w.dot(prods)
        elif case['exclude']:
            with np.errstate(all='ignore'):
                kw, si, sisj = dict(exclude_empty=True), Xf.sum(0) / (Xf != 0).sum(0), prods.sum(0) / (prods != 0).sum(0)
        else:
            kw, si, sisj = {}, Xf.mean(0), prods.mean(0)
        close(k_corr(Y, 2, **kw), sisj, 'k_corr', rtol=1e-8, atol=1e-9)
        close(k_corr(Y, 1, **kw), si, 'k_corr', rtol=1e-8, atol=1e-9)
        if case['sub']:
            sisj = sisj - np.array([si[i] * si[j] for i, j in subsets(n, 2)])
        a, b = pair_corr(Y, subtract_mean=case['sub'], **kw)
        close(a, si, 'means', rtol=1e-8, atol=1e-9)
        close(b, sisj, 'pair correlations', rtol=1e-8, atol=1e-9)
    Z = X[:min(R, 60)]
    close(calc_overlap(Y[:min(R, 60)]), Z.dot(Z.T) / n, 'calc_overlap')
    ctx.tag('n>63', n > 63)
    ctx.tag('R>127', R > 127)
    ctx.trivial(R < 2)
