"""Exact Metropolis kernels of small systems, and tests of recorded chains against them.

A recorded chain s_0, s_1, ... with k single-site steps between records is a Markov chain with kernel
T = K^k; given the from-states, the to-states are independent draws from the rows of T.  So the
transition counts have an exact reference, whatever the mixing time.
"""
import numpy as np
from .oracle import Mismatch, need


def site_kernels(E, n, k=2, sites=None):
    """Kernels of a single Metropolis step at each site.  E: energies of all k^n states in counting
    order.  A proposal is one of the k-1 other values of the site, each with the same probability."""
    N = k ** n
    idx = np.arange(N)
    out = []
    for i in (range(n) if sites is None else sites):
        b = k ** (n - 1 - i)
        K = np.zeros((N, N))
        a = (idx // b) % k
        for d in range(1, k):
            to = idx + (((a + d) % k) - a) * b
            K[idx, to] += np.exp(-np.maximum(E[to] - E, 0.)) / (k - 1)
        K[idx, idx] = 1 - K.sum(1)
        out.append(np.clip(K, 0, 1))
    return out


def power(K, k):
    return np.linalg.matrix_power(K, k)


def random_scan(Ks, k):
    return power(sum(Ks) / len(Ks), k)


def sweep(Ks, start, k):
    """Product of k steps at sites start, start+1, ..."""
    m = len(Ks)
    full = np.eye(len(Ks[0]))
    for t in range(m):
        full = full.dot(Ks[(start + t) % m])
    T = power(full, k // m)
    for t in range(k % m):
        T = T.dot(Ks[(start + t) % m])
    return T


def rows_pvalue(counts, T):
    """p-value of counts[a, b] given that each row of counts is a multinomial draw from T[a]; None if a
    transition of probability zero was seen.  Returns (p, cells)."""
    from scipy.stats import chi2
    bad = (T < 1e-13) & (counts > 0)
    if bad.any():
        return 0., tuple(int(x) for x in np.argwhere(bad)[0])
    x, df, ro, re = 0., 0, 0., 0.
    for a in np.flatnonzero(counts.sum(1)):
        N = counts[a].sum()
        e = T[a] * N
        keep = e >= 10
        x += ((counts[a][keep] - e[keep]) ** 2 / e[keep]).sum()
        df += int(keep.sum())
        o_, e_ = counts[a][~keep].sum(), e[~keep].sum()
        if e_ >= 10:
            x += (o_ - e_) ** 2 / e_
        else:
            ro += o_
            re += e_
            if e_ < 1e-9:
                df -= 1
    if re >= 10:
        x += (ro - re) ** 2 / re
        df += 1
    elif re > 0 and ro > 30 + 10 * re:
        return 0., 'rare transitions are far too frequent: %d, expected %.2g' % (ro, re)
    if df < 1:
        return 1., 0
    return float(chi2.sf(x, df)), df


def pair_counts(frm, to, N):
    c = np.zeros((N, N))
    np.add.at(c, (frm, to), 1)
    return c


def check(seq, Ks, k, systematic, what, alpha=1e-10):
    """Transitions of the recorded chain seq (state indices), with k steps between records."""
    seq = np.asarray(seq)
    N, m = len(Ks[0]), len(Ks)
    if len(seq) < 2:
        return
    if not systematic:
        T = random_scan(Ks, k)
        p, info = rows_pvalue(pair_counts(seq[:-1], seq[1:], N), T)
        need(p > alpha, '%s: transitions between %d recorded states differ from Metropolis steps at random sites '
             '(p=%.1e, %s)', what, len(seq), p, info)
        return
    tr = []
    for o in range(m):
        pm, inf = 1., None
        start = (o + k * np.arange(len(seq) - 1)) % m
        for s in np.unique(start):
            w = start == s
            p, info = rows_pvalue(pair_counts(seq[:-1][w], seq[1:][w], N), sweep(Ks, int(s), k))
            if p < pm:
                pm, inf = p, info
        tr.append((pm, inf))
    best = max(tr, key=lambda z: z[0])
    need(best[0] > alpha, '%s: transitions between %d recorded states differ from Metropolis steps at consecutive '
         'sites, for any first site (best p=%.1e, %s)', what, len(seq), best[0], best[1])


def check_from(start, ends, Ks, k, systematic, what, alpha=1e-10):
    """ends: independent final states after k steps from state index start (first site 0)."""
    N = len(Ks[0])
    c = np.zeros((N, N))
    np.add.at(c, (np.full(len(ends), start), np.asarray(ends)), 1)
    if not systematic:
        p, info = rows_pvalue(c, random_scan(Ks, k))
    else:
        # any first site, but the same for all
        p, info = max((rows_pvalue(c, sweep(Ks, o, k)) for o in range(len(Ks))), key=lambda z: z[0])
    need(p > alpha, '%s: %d final states after %d steps are not those of Metropolis steps (p=%.1e, %s)', what,
         len(ends), k, p, info)


def acceptance(X, h, J, k=2):
    """acc[t, i, v]: probability that a step at site i takes X[t] to value v of that site (0 for the present value).
    Pairwise Ising (k=2, values -1 and 1) or Potts (h[v, i], J between equal values)."""
    X = np.asarray(X)
    N, n = X.shape
    if k == 2:
        d = 2 * X * (h + X.dot(J))
        a = np.exp(-np.maximum(d, 0.))
        acc = np.zeros((N, n, 2))
        acc[:, :, 1] = np.where(X < 0, a, 0)
        acc[:, :, 0] = np.where(X > 0, a, 0)
        return acc
    loc = np.stack([h[v] + (X == v).dot(J) for v in range(k)], -1)
    now = np.take_along_axis(loc, X[:, :, None].astype(int), -1)
    acc = np.exp(-np.maximum(now - loc, 0.)) / (k - 1)
    np.put_along_axis(acc, X[:, :, None].astype(int), 0., -1)
    return acc


def check_steps(X, acc, what, systematic=False, free=None):
    """X: consecutive states with a single Metropolis step between them, of any size.  Given the past, site i changes to v with
    a known probability; sums of (change - probability) are martingales, and Freedman's inequality bounds them."""
    X = np.asarray(X).astype(int)
    N, n = X.shape
    free = np.arange(n) if free is None else np.asarray(free)
    m, k = len(free), acc.shape[2]
    moved = X[1:] != X[:-1]
    need(bool((moved.sum(1) <= 1).all()), '%s: %d spins change in a single step', what, int(moved.sum(1).max()))
    need(not np.delete(moved, free, 1).any(), '%s: a fixed spin changes', what)
    vals = np.array([-1, 1]) if k == 2 else np.arange(k)
    C = moved[:, free, None] & (X[1:, free, None] == vals)
    A = acc[:-1][:, free]
    sure = A > .999 / (k - 1)
    L = np.log(1e10 * (m * k + 3))

    def verdict(P):
        if (C & (P < 1e-14)).any():
            t, i, v = np.argwhere(C & (P < 1e-14))[0]
            return 'spin %d changed to %d in step %d, which has probability %.1e' % (free[i], vals[v], t, P[t, i, v])
        for name, w in (('certain', sure), ('uncertain', ~sure), ('all', np.ones_like(sure))):
            D, V = (w * (C - P)).sum(), (w * P).sum()
            if abs(D) > np.sqrt(2 * V * L) + 2 * L / 3:
                return '%d %s moves, expected %.0f' % ((w & C).sum(), name, V)
        D, V = (C - P).sum(0), P.sum(0)
        b = np.abs(D) > np.sqrt(2 * V * L) + 2 * L / 3
        if b.any():
            i, v = np.argwhere(b)[0]
            return 'spin %d changed to %d %d times, expected %.0f' % (free[i], vals[v], C[:, i, v].sum(), V[i, v])
    if not systematic:
        r = verdict(A / m)
        need(r is None, '%s: %s', what, r)
        return
    on = np.zeros((m, N - 1, m), bool)
    for o in range(m):
        on[o, np.arange(N - 1), (o + np.arange(N - 1)) % m] = True
    hits = (C.any(2)[None] & on).sum((1, 2))
    o = int(np.argmax(hits))
    r = verdict(A * on[o][:, :, None])
    need(r is None, '%s: sites in turn: %s', what, r)


def large_model(case, k=2):
    """n, parameter vector, fields, coupling matrix of a gen.large case."""
    from . import gen
    n = case['n']
    q = n * (n - 1) // 2
    th, _ = gen.bulk(dict(case, vals=[0, 1]), q + (n if k == 2 else k * n))
    th[:q] /= np.sqrt(n / 4.)
    th = np.concatenate([th[q:], th[:q]])
    J = np.zeros((n, n))
    J[np.triu_indices(n, 1)] = th[-q:]
    return n, th, (th[:n] if k == 2 else th[:-q].reshape(k, n)), J + J.T


def unrelated(rows, means, where):
    """States of independent spins (0/1 for each value of each spin, and the probabilities of these) agree by chance only (p<1e-12).

    Steps between records must leave correlations below 0.02 per spin."""
    n = rows[0].shape[-1]
    A, B = np.array(rows, float).reshape(len(rows), -1), np.array(means).reshape(len(rows), -1)
    Q, E = A.dot(A.T), B.dot(B.T)
    d = np.triu(Q - E, 1)
    lim = np.sqrt(n / 2 * np.log(len(rows)**2 / 1e-12)) + .02 * n
    a, b = np.unravel_index(d.argmax(), d.shape)
    need(d[a, b] < lim, '%d of %d spins agree between %s and %s (expected: %d)', Q[a, b], n, where[a], where[b], E[a, b])


def turns(X, n_iters, free, what, breaks=0):
    """With all parameters zero every proposed change is accepted: between records exactly the next n_iters of the free sites
    (in increasing order, cyclically) must change.  The first site is not prescribed; `breaks` new chains may start on the way."""
    X = np.asarray(X).astype(int)
    free = np.asarray(free)
    m = len(free)
    need(not (np.delete(X, free, 1) != np.delete(X[:1], free, 1)).any(), '%s: a fixed site changes', what)
    moved = (X[1:] != X[:-1])[:, free]
    W = np.zeros((m, m), bool)
    for o in range(m):
        W[o, (o + np.arange(n_iters)) % m] = True
    at = set(range(m))
    left = breaks
    for t, mv in enumerate(moved):
        nxt = {(o + n_iters) % m for o in at if (W[o] == mv).all()}
        if not nxt:
            need(left > 0, '%s: %d systematic steps in zero field change sites %s between records %d and %d', what, n_iters,
                 free[mv].tolist(), t, t + 1)
            left -= 1
            nxt = set(range(m))
        at = nxt
