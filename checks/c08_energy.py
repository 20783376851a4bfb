"""C08: energies, observables, neighbours and derivatives of every built-in model."""
import numpy as np
from hypothesis import strategies as st
from vh import gen
from vh.core import Prop
from vh.oracle import (need, close, same, states, energy, monomials, subsets, nparams, potts_features,
                       potts_energy, raises)

P = Prop('C08', 'generated parameters and states of every built-in model; non-trivial: n > 2 and '
         'parameters not all zero')


@st.composite
def ising_case(draw):
    n = draw(st.integers(2, 8))
    vals = draw(st.sampled_from([(-1, 1), (0, 1)]))
    return dict(n=n, theta=draw(gen.theta(n, 4.)), S=draw(gen.sample(n, 1, 8, vals)))


@P.sub('ising', ising_case, quick=800, thorough=20000)
def ising(case, ctx):
    from coniii.utils import define_ising_helper_functions, define_ising_helper_functions_sym
    global _H, _HS
    if '_H' not in globals():
        _H, _HS = define_ising_helper_functions(), define_ising_helper_functions_sym()
    n, S, th = case['n'], np.array(case['S']), np.array(case['theta'])
    keep = S.copy(), th.copy()
    close(_H[0](S, th), energy(S, th), 'calc_e', rtol=1e-9, atol=1e-10)
    close(_H[1](S), monomials(S), 'calc_observables')
    J = th[n:].copy()
    close(_HS[0](S, J), energy(S, np.concatenate([np.zeros(n), J])), 'calc_e without fields', rtol=1e-9, atol=1e-10)
    close(_HS[1](S), monomials(S)[:, n:], 'calc_observables without fields')
    close(_H[1](S.astype(np.int8)), monomials(S), 'calc_observables of int8')
    same(S, keep[0], 'the given states')
    close(th, keep[1], 'the given parameters', rtol=0, atol=0)
    ctx.trivial(n < 3 or not np.any(th))


@P.sub('enumerated_states', st.integers(2, 7).flatmap(lambda n: st.fixed_dictionaries(dict(
    n=st.just(n), theta=gen.theta(n, 4.), sym=st.booleans()))), quick=200, thorough=4000)
def enumerated(case, ctx):
    """The functions take the states as the package lists them."""
    from coniii.utils import bin_states, define_ising_helper_functions
    global _H1
    if '_H1' not in globals():
        _H1 = define_ising_helper_functions()
    n, th = case['n'], np.array(case['theta'])
    S = states(n, case['sym'])
    close(_H1[0](bin_states(n, case['sym']), th), energy(S, th), 'calc_e', rtol=1e-9, atol=1e-10)
    close(_H1[1](bin_states(n, case['sym'])), monomials(S), 'calc_observables')
    ctx.trivial(not np.any(th))


@st.composite
def triplet_case(draw):
    n = draw(st.integers(3, 6))
    vals = draw(st.sampled_from([(-1, 1), (0, 1)]))
    return dict(n=n, theta=draw(gen.theta(n, 3., 3)), S=draw(gen.sample(n, 1, 6, vals)))


@P.sub('triplet', triplet_case, quick=400, thorough=10000)
def triplet(case, ctx):
    from coniii.utils import define_triplet_helper_functions
    global _T
    if '_T' not in globals():
        _T = define_triplet_helper_functions()
    S, th = np.array(case['S']), np.array(case['theta'])
    close(_T[1](S), monomials(S, 3), 'calc_observables')
    close(_T[0](S, th), energy(S, th, 3), 'calc_e', rtol=1e-9, atol=1e-10)
    ctx.trivial(not np.any(th))


@st.composite
def potts_case(draw):
    k = draw(st.integers(2, 5))
    n = draw(st.integers(2, 6))
    return dict(n=n, k=k, theta=draw(gen.vec(n * k + n * (n - 1) // 2, gen.reals(3.))),
                S=draw(gen.sample(n, 1, 8, tuple(range(k)))))


@P.sub('potts', potts_case, quick=400, thorough=10000)
def potts(case, ctx):
    from coniii.utils import define_potts_helper_functions
    global _Q
    if '_Q' not in globals():
        _Q = {}
    k = case['k']
    if k not in _Q:
        _Q[k] = define_potts_helper_functions(k)
    S, th = np.array(case['S']), np.array(case['theta'])
    close(_Q[k][1](S), potts_features(S, k), 'calc_observables')
    close(_Q[k][0](S, th), potts_energy(S, th, k), 'calc_e', rtol=1e-9, atol=1e-10)
    close(_Q[k][0](S.astype(np.int8), th), potts_energy(S, th, k), 'calc_e of int8', rtol=1e-9, atol=1e-10)
    ctx.tag('k=%d' % k)
    ctx.trivial(not np.any(th))


@P.sub('derivative', ising_case, quick=500, thorough=10000)
def derivative(case, ctx):
    from coniii.utils import calc_de
    S = np.array(case['S'])
    n = case['n']
    M = monomials(S)
    for i in range(nparams(n)):
        close(calc_de(S, i), -M[:, i], 'calc_de wrt parameter %d' % i)
        for dtype in ['int8', 'float64'] + ([] if (S < 0).any() else ['uint8', 'bool', 'uint64']):
            close(calc_de(S.astype(dtype), i), -M[:, i], 'calc_de wrt parameter %d, %s' % (i, dtype))
    raises(lambda: calc_de(S[0], 0), 'a single state')
    ctx.trivial(n < 3)


@st.composite
def adj_case(draw):
    n = draw(st.integers(1, 9))
    sym = draw(st.booleans())
    return dict(n=n, sym=sym, s=draw(gen.spins(n, (-1, 1) if sym else (0, 1))),
                extra=draw(st.integers(0, 5)), dtype=draw(st.sampled_from(['int64', 'int8', 'float64'])))


@P.sub('neighbours', adj_case, quick=600, thorough=10000)
def neighbours(case, ctx):
    from coniii.utils import adj, adj_sym
    s = np.array(case['s']).astype(case['dtype'])
    n, extra = case['n'], case['extra']
    f = adj_sym if case['sym'] else adj
    vals = (-1, 1) if case['sym'] else (0, 1)
    want = np.tile(np.array(case['s'], float), (n, 1))
    for i in range(n):
        want[i, i] = vals[0] if case['s'][i] == vals[1] else vals[1]
    same(f(s), want, 'one-flip neighbours')
    same(s, case['s'], 'the given state')
    if extra:
        got = f(s, extra)
        need(got.shape == (n + extra, n), 'shape %s', got.shape)
        same(got[:n], want, 'one-flip neighbours')
        need(bool(np.isin(got, vals).all()), 'a random neighbour has other entries: %s', got[n:])
        need(bool((got[n:] != s).any(1).all()), 'a random neighbour is the state itself')
        same(s, case['s'], 'the given state')
    ctx.tag('random neighbours', extra > 0)
    ctx.trivial(n < 2)


@P.sub('random_neighbours', cases=[dict(n=n, sym=s) for n in (2, 5, 30) for s in (False, True)])
def random_neighbours(case, ctx):
    """Random neighbours are random states: every spin takes both values equally often (false alarms below 1e-10)."""
    from coniii.utils import adj, adj_sym
    n, sym = case['n'], case['sym']
    s = np.ones(n) if sym else np.zeros(n)
    X = (adj_sym if sym else adj)(s, 20000)[n:]
    X = X if sym else 2 * X - 1
    c = -1. / (2 ** n - 1)                               # the state itself does not occur
    bias = c if sym else -c
    z = (X.mean(0) - bias) * np.sqrt(20000)
    need(np.abs(z).max() < 7, 'a spin of the random neighbours is %g on average, expected %g', X.mean(0)[np.abs(z).argmax()], bias)
    close(X.T.dot(X) / len(X), np.eye(n) + (1 - np.eye(n)) * c, 'correlations of random neighbours', rtol=0, atol=.06)


@st.composite
def pseudo_case(draw):
    n = draw(st.integers(2, 7))
    k = draw(st.integers(2, 4))
    return dict(n=n, k=k, X=draw(gen.sample(n, 1, 6)), th=draw(gen.theta(n, 3., elem=gen.smooth(3.))),
                XP=draw(gen.sample(n, 1, 6, tuple(range(k)))),
                thP=draw(gen.vec(n * k + n * (n - 1) // 2, gen.smooth(3.))))


@P.sub('conditional', pseudo_case, quick=150, thorough=3000)
def conditional(case, ctx):
    """The per-spin pieces used by pseudo-likelihood: their product is the part of the energy that
    involves the spin."""
    from coniii.utils import define_pseudo_ising_helper_functions, define_pseudo_potts_helper_functions
    global _PI, _PP
    if '_PI' not in globals():
        _PI, _PP = {}, {}
    n, k = case['n'], case['k']
    if n not in _PI:
        _PI[n] = define_pseudo_ising_helper_functions(n)
    if (n, k) not in _PP:
        _PP[n, k] = define_pseudo_potts_helper_functions(n, k)
    X, th = np.array(case['X']), np.array(case['th'])
    getm, obs = _PI[n]
    for r in range(n):
        m, ix = getm(r, th)
        need(len(set(ix)) == n, 'indices of spin %d repeat: %s', r, list(ix))
        close(m, th[np.array(ix)], 'multipliers of spin %d' % r, rtol=0, atol=0)
        Y = X.copy()
        Y[:, r] *= -1
        # flipping r changes the sign of its part of the energy
        want = (energy(Y, th) - energy(X, th)) / 2
        close(obs(r, X).dot(m), want, 'energy of spin %d' % r, rtol=1e-8, atol=1e-9)
        close(obs(r, X), monomials(X)[:, np.array(ix)], 'observables of spin %d' % r)
    X, th = np.array(case['XP']), np.array(case['thP'])
    getm, obs = _PP[n, k]
    F = potts_features(X, k)
    for r in range(n):
        m, ix = getm(r, th)
        need(len(set(ix)) == n - 1 + k, 'indices of spin %d repeat: %s', r, list(ix))
        close(m, th[np.array(ix)], 'Potts multipliers of spin %d' % r, rtol=0, atol=0)
        o, other, which = obs(r, X)
        close(o, F[:, np.array(ix)], 'Potts observables of spin %d' % r)
        need(len(other) == k - 1, '%d alternatives', len(other))
        which = np.asarray(which)
        for row in range(len(X)):
            need(sorted(which[row].tolist() + [int(X[row, r])]) == list(range(k)),
                 'alternatives of %d are %s', X[row, r], which[row])
        for a in range(k - 1):
            Y = X.copy()
            Y[:, r] = which[:, a]
            close(other[a], potts_features(Y, k)[:, np.array(ix)], 'Potts observables if spin %d changes' % r)
    ctx.trivial(n < 3)


@P.sub('many_spins', gen.large(7, 70, rows=20, k=st.sampled_from([2, 7, 12])), quick=40, thorough=800)
def many_spins(case, ctx):
    """The same identities at sizes that are used in practice."""
    from coniii.utils import (define_ising_helper_functions, define_ising_helper_functions_sym, define_triplet_helper_functions, calc_de, adj,
                              adj_sym, define_potts_helper_functions, define_pseudo_ising_helper_functions)
    global _H, _HS, _T, _Q
    if '_H' not in globals():
        _H, _HS = define_ising_helper_functions(), define_ising_helper_functions_sym()
    if '_T' not in globals():
        _T = define_triplet_helper_functions()
    if '_Q' not in globals():
        _Q = {}
    n = case['n']
    th, S = gen.bulk(case, nparams(n))
    M = monomials(S)
    tol = dict(rtol=1e-9, atol=1e-9 * (1 + np.abs(th).sum()))
    close(_H[0](S, th), -M.dot(th), 'calc_e', **tol)
    close(_H[1](S), M, 'calc_observables')
    close(_HS[0](S, th[n:].copy()), -M[:, n:].dot(th[n:]), 'calc_e without fields', **tol)
    close(_HS[1](S), M[:, n:], 'calc_observables without fields')
    r = np.random.RandomState(case['seed'] % 997)
    for i in {0, n - 1, n, nparams(n) - 1} | set(r.randint(0, nparams(n), 20).tolist()):
        close(calc_de(S, i), -M[:, i], 'calc_de wrt parameter %d' % i)
    sym = -1 in case['vals']
    for j in (0, len(S) - 1):
        want = np.tile(S[j], (n, 1))
        want[range(n), range(n)] = -S[j] if sym else 1 - S[j]
        same((adj_sym if sym else adj)(S[j].astype(np.int8)), want, 'one-flip neighbours')
    if sym:
        get, obs = define_pseudo_ising_helper_functions(n)
        for q in (0, 1, n // 2, n - 1):
            m, ix = get(q, th)
            Y = S.copy()
            Y[:, q] *= -1
            close(m, th[np.array(ix)], 'multipliers of spin %d' % q, rtol=0, atol=0)
            close(obs(q, S).dot(m), (M - monomials(Y)).dot(th) / 2, 'energy of spin %d' % q, **tol)
    m = min(n, 6 + n % 12)
    T, S3 = gen.bulk(dict(case, n=m), nparams(m, 3))
    close(_T[1](S3), monomials(S3, 3), 'calc_observables with triplets')
    close(_T[0](S3, T), energy(S3, T, 3), 'calc_e with triplets', rtol=1e-9, atol=1e-9 * (1 + np.abs(T).sum()))
    k, m = case['k'], min(n, 30)
    if k not in _Q:
        _Q[k] = define_potts_helper_functions(k)
    T, SP = gen.bulk(dict(case, n=m, vals=list(range(k))), m * k + m * (m - 1) // 2)
    close(_Q[k][1](SP), potts_features(SP, k), 'Potts observables')
    close(_Q[k][0](SP, T), potts_energy(SP, T, k), 'Potts energy', rtol=1e-9, atol=1e-9 * (1 + np.abs(T).sum()))
    m, q = min(n, 3 + n % 5), min(k, 7)            # many rows
    from coniii.utils import define_pseudo_potts_helper_functions
    global _PP
    if '_PP' not in globals():
        _PI, _PP = {}, {}
    if (m, q) not in _PP:
        _PP[m, q] = define_pseudo_potts_helper_functions(m, q)
    X = r.randint(0, q, (r.randint(100, 600), m))
    for j in (0, m - 1):
        _, ix = _PP[m, q][0](j, np.zeros(m * q + m * (m - 1) // 2))
        o, other, which = _PP[m, q][1](j, X)
        close(o, potts_features(X, q)[:, np.array(ix)], 'Potts observables of spin %d' % j)
        for a in range(q - 1):
            Y = X.copy()
            Y[:, j] = which[:, a]
            close(other[a], potts_features(Y, q)[:, np.array(ix)], 'Potts observables if spin %d changes' % j)
    ctx.tag('n>32', n > 32)
    ctx.tag('k>5', k > 5)
