"""Reference implementations, written from the definitions and independent of the code under test.

Conventions of the package (README, docs): E(s) = - sum_i h_i s_i - sum_{i<j} J_ij s_i s_j
(- sum_{i<j<k} K_ijk s_i s_j s_k), p(s) = exp(-E(s)) / Z, parameters concatenated from lowest to
highest order with the last index running fastest; states in order of the binary number they spell.
"""
import itertools, math
import numpy as np


class Mismatch(AssertionError):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def close(a, b, what, rtol=1e-9, atol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, '%s: shape %s instead of %s', what, a.shape, b.shape)
    a, b = a.astype(float), b.astype(float)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        ix = tuple(int(i) for i in np.argwhere(~np.atleast_1d(ok))[0])
        need(False, '%s: %r instead of %r at %s (of %d entries %d differ)', what,
             float(np.atleast_1d(a)[ix]), float(np.atleast_1d(b)[ix]), ix, ok.size, int((~ok).sum()))


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, '%s: shape %s instead of %s', what, a.shape, b.shape)
    need(bool((a == b).all()), '%s: %s instead of %s', what, a.tolist(), b.tolist())


def raises(f, what, kinds=(Exception,)):
    try:
        r = f()
    except kinds:
        return
    raise Mismatch('%s: accepted, returned %r' % (what, r))


def subsets(n, k):
    return list(itertools.combinations(range(n), k))


def nparams(n, order=2):
    return sum(math.comb(n, i) for i in range(1, order + 1))


def states(n, sym=False):
    """All binary states, in order of the number they spell."""
    lo = -1 if sym else 0
    return np.array(list(itertools.product([lo, 1], repeat=n)), dtype=int).reshape(2**n, n)


def potts_states(n, k):
    return np.array(list(itertools.product(range(k), repeat=n)), dtype=int)


def monomials(S, order=2):
    """Columns s_i, s_i s_j, ... of every subset up to the given order."""
    S = np.asarray(S)
    cols = []
    for k in range(1, order + 1):
        for ix in subsets(S.shape[1], k):
            c = np.ones(len(S))
            for i in ix:
                c = c * S[:, i]
            cols.append(c)
    return np.array(cols).T.reshape(len(S), nparams(S.shape[1], order))


def energy(S, theta, order=2):
    return -(monomials(S, order) * np.asarray(theta, float)[None, :]).sum(1)


def potts_features(S, k):
    """Indicators s_i==a (spin fastest, then state), then s_i==s_j."""
    S = np.asarray(S)
    n = S.shape[1]
    cols = [(S[:, i] == a) for a in range(k) for i in range(n)]
    cols += [(S[:, i] == S[:, j]) for i, j in subsets(n, 2)]
    return np.array(cols).T.astype(float)


def potts_energy(S, theta, k):
    return -(potts_features(S, k) * np.asarray(theta, float)[None, :]).sum(1)


def softmax(logw):
    logw = np.asarray(logw, dtype=np.longdouble)
    w = np.exp(logw - logw.max())
    return np.asarray(w / w.sum(), dtype=float)


def boltzmann(theta, n, sym=True, order=2):
    return softmax(-energy(states(n, sym), theta, order))


def potts_boltzmann(theta, n, k):
    return softmax(-potts_energy(potts_states(n, k), theta, k))


def mean_obs(theta, n, sym=True, order=2):
    return boltzmann(theta, n, sym, order).dot(monomials(states(n, sym), order))


def index(S, sym=True):
    """Position of each row in states(n, sym)."""
    S = np.asarray(S)
    b = (S > 0).astype(int)
    return b.dot(2 ** np.arange(S.shape[1] - 1, -1, -1))


def potts_index(S, k):
    S = np.asarray(S).astype(int)
    return S.dot(k ** np.arange(S.shape[1] - 1, -1, -1))


def entropy(p):
    p = np.asarray(p, float)
    p = p[p > 0]
    return float(-(p * np.log(p)).sum())


def chi2(counts, p, what, alpha=1e-9):
    """Goodness of fit of counts to probabilities p; cells are pooled until enough is expected.
    Returns the number of pooled cells."""
    from scipy.stats import chi2 as dist
    counts, p = np.asarray(counts, float), np.asarray(p, float)
    N = counts.sum()
    impossible = (p < 1e-300) & (counts > 0)
    need(not impossible.any(), '%s: state %s has no probability but was drawn', what,
         np.flatnonzero(impossible)[:3].tolist())
    order = np.argsort(p)
    o_, e_, O, E = 0., 0., [], []
    for i in order:
        o_ += counts[i]
        e_ += p[i] * N
        if e_ >= 10:
            O.append(o_); E.append(e_)
            o_ = e_ = 0.
    if e_ > 0 or o_ > 0:
        if O:
            O[-1] += o_; E[-1] += e_
        else:
            O, E = [o_], [e_]
    O, E = np.array(O), np.array(E)
    if len(O) < 2:
        return 1
    x = ((O - E) ** 2 / E).sum()
    pv = dist.sf(x, len(O) - 1)
    need(pv > alpha, '%s: chi2=%.1f with %d degrees of freedom over %d draws (p=%.1e)', what, x,
         len(O) - 1, int(N), pv)
    return len(O)


def binom_ok(hits, trials, p, what, alpha=1e-9):
    """hits out of trials is consistent with probability p."""
    from scipy.stats import binom
    p = min(1., max(0., float(p)))
    lo, hi = binom.cdf(hits, trials, p), binom.sf(hits - 1, trials, p)
    need(min(lo, hi) > alpha, '%s: %d of %d, expected a fraction of %.5g', what, hits, trials, p)
