"""C10: Python Metropolis chains, energies and histories; Wolff clusters."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, chain
from vh.core import Prop
from vh.oracle import (need, close, same, states, energy, monomials, boltzmann, index, chi2, binom_ok, nparams,
                       potts_states, potts_energy, potts_index, potts_boltzmann)

P = Prop('C10', 'generated parameters, start states and call options; recorded transitions are compared with the exact '
         'Metropolis kernel; non-trivial: parameters not all zero and at least one step')
_F = {}


def pkg(kind):
    if kind not in _F:
        from coniii import utils
        _F[kind] = utils.define_ising_helper_functions()[0] if kind == 'ising' else utils.define_potts_helper_functions(3)[0]
    return _F[kind]


def cubic(S, theta):
    """An energy function of our own: any function of the state is allowed."""
    S = np.asarray(S)
    return energy(S, theta) + .7 * S[:, 0] * S[:, 1] * S[:, -1]


def model(case):
    """states, calc_e, energies, number of values, index function"""
    n = case['n']
    th = np.array(case['th'], float)
    if case['kind'] == 'potts':
        S = potts_states(n, 3)
        return S, pkg('potts'), potts_energy(S, th, 3), 3, lambda X: potts_index(X, 3)
    S = states(n, True)
    if case['kind'] == 'cubic':
        return S, cubic, cubic(S, th), 2, index
    return S, pkg('ising'), energy(S, th), 2, index


def sampler(case, **kw):
    from coniii.samplers import Metropolis, Potts3
    S, f, E, k, ix = model(case)
    th = np.array(case['th'], float)
    rng = np.random.RandomState(case['seed'])
    if case['kind'] == 'potts':
        return Potts3(case['n'], th, calc_e=f, rng=rng, boost=False)
    return Metropolis(case['n'], th, calc_e=f, rng=rng, boost=False, iprint=False)


@st.composite
def base(draw, kinds=('ising', 'ising', 'potts', 'cubic'), big=False):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(2, 3 if kind == 'potts' else 4))
    size = n * 3 + n * (n - 1) // 2 if kind == 'potts' else nparams(n)
    scale = draw(st.sampled_from([0., .4, 1., 2.]))
    el = gen.smooth(scale) if draw(st.booleans()) else gen.reals(scale)
    return dict(kind=kind, n=n, th=draw(gen.vec(size, el)), seed=draw(gen.seeds))


@st.composite
def chain_case(draw):
    c = draw(base())
    c.update(n_iters=draw(st.integers(1, 7)), burn=draw(st.sampled_from([None, 0, 1, 2, 3, 5])), sysit=draw(st.booleans()),
             hist=draw(st.booleans()), init=draw(st.one_of(st.none(), st.integers(0, 8))))
    return c


@P.sub('transitions', chain_case, quick=60, thorough=1500)
def transitions(case, ctx):
    S, f, E, k, ix = model(case)
    n = case['n']
    s = sampler(case)
    N = 2500
    kw = dict(n_iters=case['n_iters'], systematic_iter=case['sysit'])
    if case['burn'] is not None:
        kw['burn_in'] = case['burn']
    if case['hist']:
        kw['saveHistory'] = True
    init = None
    if case['init'] is not None:
        init = S[case['init'] % len(S)][None, :].copy()
        kw['initial_sample'] = init
    keep = None if init is None else init.copy()
    h = s.generate_sample(N, **kw)
    X = s.sample
    need(X.shape == (N, n), 'sample has shape %s', X.shape)
    need(bool(np.isin(X, S).all()), 'sample has other entries than the values of a spin')
    seq = ix(X)
    close(np.ravel(s.E), E[seq], 'energies of the sample', rtol=0, atol=1e-8)
    Ks = chain.site_kernels(E, n, k)
    chain.check(seq, Ks, case['n_iters'], case['sysit'], 'sample')
    if init is not None:
        same(init, keep, 'the given initial sample')
        b = case['n_iters'] if case['burn'] is None else case['burn']
        T = chain.random_scan(Ks, b + case['n_iters'])
        if not case['sysit']:
            need(T[ix(init)[0], seq[0]] > 1e-13, 'the first state %s cannot be reached from the initial state %s in %d steps',
                 X[0], init[0], b + case['n_iters'])
    if case['hist']:
        need(np.shape(h) == (N * case['n_iters'],), 'history has shape %s for %d steps', np.shape(h), N * case['n_iters'])
        close(h[case['n_iters'] - 1::case['n_iters']], E[seq], 'history at the recorded states', rtol=0, atol=1e-8)
        d = np.abs(h[:, None] - E[None, :]).min(1)
        need(d.max() < 1e-8, 'the history has an energy that no state has')
    else:
        need(h is None, 'returned %r', type(h))
    ctx.tag(case['kind'])
    ctx.tag('systematic', case['sysit'])
    ctx.tag('history', case['hist'])
    ctx.trivial(not np.any(case['th']))


@st.composite
def from_case(draw):
    c = draw(base())
    c.update(n_iters=draw(st.integers(0, 5)), burn=draw(st.sampled_from([None, 0, 1, 2, 4])), sysit=draw(st.booleans()),
             init=draw(st.integers(0, 26)))
    return c


@P.sub('number_of_steps', from_case, quick=40, thorough=800)
def number_of_steps(case, ctx):
    """Many short calls from one state: exactly burn_in + n_iters steps are made from it."""
    S, f, E, k, ix = model(case)
    s = sampler(case)
    s0 = S[case['init'] % len(S)]
    b = case['n_iters'] if case['burn'] is None else case['burn']
    ends = []
    for _ in range(900):
        s.generate_sample(1, n_iters=case['n_iters'], burn_in=case['burn'], systematic_iter=case['sysit'],
                          initial_sample=s0[None, :])
        ends.append(s.sample[0])
    ends = ix(np.array(ends))
    Ks = chain.site_kernels(E, case['n'], k)
    start = int(ix(s0[None, :])[0])
    # the sites of the burn-in and those of the sample may be counted separately
    what = '%d steps after a burn-in of %d' % (case['n_iters'], b)
    if case['sysit']:
        p = 0
        c = np.zeros((len(S), len(S)))
        np.add.at(c, (np.full(len(ends), start), ends), 1)
        for o in range(case['n']):
            for o2 in {o, (o + b) % case['n']}:
                T = chain.sweep(Ks, o, b).dot(chain.sweep(Ks, o2, case['n_iters']))
                p = max(p, chain.rows_pvalue(c, T)[0])
        need(p > 1e-10, '%s at consecutive sites: final states have p=%.1e', what, p)
    else:
        chain.check_from(start, ends, Ks, b + case['n_iters'], False, what)
    ctx.tag(case['kind'])
    ctx.trivial(b + case['n_iters'] == 0)


@st.composite
def accept_case(draw):
    c = draw(base())
    c.update(init=draw(st.integers(0, 80)), site=draw(st.integers(0, 3)), own=draw(st.booleans()),
             given=draw(st.booleans()))
    return c


@P.sub('acceptance', accept_case, quick=120, thorough=3000)
def acceptance(case, ctx):
    """A single step accepts with probability min(1, exp(-dE)) and returns the change of energy."""
    S, f, E, k, ix = model(case)
    n = case['n']
    s = sampler(case)
    s0 = S[case['init'] % len(S)].copy()
    i0 = int(ix(s0[None, :])[0])
    site = case['site'] % n
    kw = dict(flip_site=site)
    if case['own']:
        kw['rng'] = np.random.RandomState(case['seed'] ^ 1)
    if case['given']:
        kw['calc_e'] = s.calc_e
        s.calc_e = None
    counts = np.zeros((len(S), len(S)))
    before = s.rng.get_state()
    for _ in range(1500):
        x = s0.copy()
        de = s.sample_metropolis(x, E[i0], **kw)
        j = int(ix(x[None, :])[0])
        counts[i0, j] += 1
        if abs(float(np.ravel(de)[0]) - (E[j] - E[i0])) > 1e-8:
            need(False, 'returned a change of energy %r instead of %r', de, E[j] - E[i0])
    K = chain.site_kernels(E, n, k)[site]
    p, info = chain.rows_pvalue(counts, K)
    need(p > 1e-10, 'step at site %d from %s: seen %s, probabilities %s (p=%.1e)', site, s0,
         {str(S[j]): int(c) for j, c in enumerate(counts[i0]) if c}, {str(S[j]): round(K[i0, j], 4) for j in np.flatnonzero(K[i0])}, p)
    if case['own']:
        # a given generator is used instead of that of the sampler
        after = s.rng.get_state()
        need(before[2] == after[2] and np.array_equal(before[1], after[1]),
             'the step used the generator of the sampler although one was given')
    ctx.tag(case['kind'])
    ctx.trivial(not np.any(case['th']))


@P.sub('start', base(), quick=40, thorough=400)
def start(case, ctx):
    """Without a given state the chain starts from a random state that is uniform."""
    S, f, E, k, ix = model(case)
    s = sampler(case)
    R = s.random_sample(4000)
    need(R.shape == (4000, case['n']), 'random_sample has shape %s', R.shape)
    need(bool(np.isin(R, S).all()), 'random_sample has entries %s', np.unique(R))
    u = np.full(len(S), 1. / len(S))
    chi2(np.bincount(ix(R), minlength=len(S)), u, 'random states')
    firsts = []
    for i in range(600):
        case2 = dict(case, seed=(case['seed'] + i) % 2**31)
        t = sampler(case2)
        t.generate_sample(1, n_iters=0, burn_in=0)
        firsts.append(t.sample[0])
        close(np.ravel(t.E), E[ix(t.sample)], 'energy of the start', rtol=0, atol=1e-9)
    chi2(np.bincount(ix(np.array(firsts)), minlength=len(S)), u, 'start states')
    s0 = S[case['seed'] % len(S)][None, :]
    s.generate_sample(1, n_iters=0, burn_in=0, initial_sample=s0)
    same(s.sample, s0, 'sample after no step from a given state')


@st.composite
def hist_case(draw):
    c = draw(base())
    c['ops'] = draw(st.lists(st.fixed_dictionaries(dict(
        op=st.sampled_from(['sample', 'sample', 'theta']), N=st.integers(1, 6), n_iters=st.integers(0, 5),
        burn=st.sampled_from([None, 0, 1, 3]), sysit=st.booleans(), hist=st.booleans(),
        init=st.one_of(st.none(), st.integers(0, 8)), scale=st.sampled_from([-1., .5, 2.]))), min_size=2, max_size=8))
    return c


@P.sub('call_sequences', hist_case, quick=200, thorough=6000)
def call_sequences(case, ctx):
    """After any sequence of calls the energies belong to the states and to the latest parameters."""
    s = sampler(case)
    cur = dict(case)
    for o in case['ops']:
        if o['op'] == 'theta':
            cur['th'] = [t * o['scale'] for t in cur['th']]
            s.update_parameters(np.array(cur['th'], float))
            continue
        S, f, E, k, ix = model(cur)
        kw = dict(n_iters=o['n_iters'], burn_in=o['burn'], systematic_iter=o['sysit'], saveHistory=o['hist'])
        if o['init'] is not None:
            kw['initial_sample'] = S[o['init'] % len(S)][None, :]
        h = s.generate_sample(o['N'], **kw)
        need(s.sample.shape == (o['N'], case['n']), 'sample has shape %s', s.sample.shape)
        need(bool(np.isin(s.sample, S).all()), 'sample has entries %s', np.unique(s.sample))
        close(np.ravel(s.E), E[ix(s.sample)], 'energies', rtol=0, atol=1e-8)
        if o['hist']:
            need(np.shape(h) == (o['N'] * o['n_iters'],), 'history has shape %s', np.shape(h))
            if o['n_iters']:
                close(h[o['n_iters'] - 1::o['n_iters']], E[ix(s.sample)], 'history', rtol=0, atol=1e-8)
        if o['n_iters'] == 0:
            same(s.sample, np.tile(s.sample[:1], (o['N'], 1)), 'sample without steps')
    ctx.trivial(sum(o['op'] == 'sample' for o in case['ops']) < 2)


@st.composite
def wolff_case(draw):
    n = draw(st.integers(2, 6))
    m = n * (n - 1) // 2
    J = np.array(draw(gen.vec(m, gen.smooth(1.2)))) / max(1, (n - 1) / 3)
    shape = draw(st.sampled_from(['all', 'all', 'chain', 'star', 'ferromagnet']))
    i, jj = np.triu_indices(n, 1)
    if shape != 'all':
        J = dict(chain=np.where(jj == i + 1, .8, 0), star=np.where(i == 0, .8, 0), ferromagnet=np.full(m, 1.2 / n))[shape]
    J = [float(round(v, 6)) for v in J]
    return dict(n=n, h=draw(gen.vec(n, gen.smooth(.8))), J=J,
                seed=draw(gen.seeds), matrix=draw(st.booleans()), mode=draw(st.sampled_from(['plain', 'history', 'site', 'parallel'])),
                site=draw(st.integers(0, 5)), k=draw(st.integers(1, 2)), dtype=draw(st.sampled_from(['float64', 'float64', 'int64', 'int8'])))


@P.sub('wolff', wolff_case, quick=32, thorough=400)
def wolff(case, ctx):
    """Cluster steps with fields leave the Boltzmann distribution invariant and are reversible."""
    from coniii.samplers import WolffIsing
    from scipy.spatial.distance import squareform
    n, h, J = case['n'], np.array(case['h']), np.array(case['J'])
    w = WolffIsing(squareform(J) if case['matrix'] else J, h)
    w.rng = np.random.RandomState(case['seed'])
    p = boltzmann(np.concatenate([h, J]), n)
    S = states(n, True).astype(float)
    N = 3000
    X = S[np.random.RandomState(case['seed'] ^ 5).choice(len(S), size=N, p=p)].astype(case['dtype'])
    x0 = index(X)
    if case['mode'] == 'site':
        Y = X.copy()
        for row in Y:
            w.one_step(row, initialsite=case['site'] % n)
    elif case['mode'] == 'history':
        Y, H = w.generate_sample(N, case['k'], initialSample=X.copy(), save_history=True)
        need(H.shape == (N, n, case['k'] + 1), 'history has shape %s', H.shape)
        same(H[:, :, 0], X, 'history starts with the given states')
        same(H[:, :, -1], Y, 'history ends with the sample')
    elif case['mode'] == 'parallel':
        Y = w.generate_sample_parallel(N, case['k'], initialSample=X.copy())
        need(w.generate_sample_parallel(5, case['k']).shape == (5, n), 'parallel sample from random states')
    else:
        Y = w.generate_sample(N, case['k'], initialSample=X.copy())
    need(Y.shape == (N, n) and bool(np.isin(Y, (-1, 1)).all()), 'sample has shape %s', Y.shape)
    y0 = index(Y)
    chi2(np.bincount(y0, minlength=len(S)), p, 'states after cluster steps')
    if case['mode'] == 'site' or (case['mode'] == 'plain' and case['k'] == 1) or case['k'] == 1:
        c = chain.pair_counts(x0, y0, len(S))
        a, b = c[np.triu_indices(len(S), 1)], c.T[np.triu_indices(len(S), 1)]
        m = a + b >= 20
        from scipy.stats import chi2 as dist
        if m.any():
            x = ((a - b)[m] ** 2 / (a + b)[m]).sum()
            need(dist.sf(x, m.sum()) > 1e-9, 'cluster steps are not reversible: chi2=%.1f with %d pairs', x, m.sum())
    need((x0 != y0).any() or N == 0, 'no cluster was ever flipped')
    if case['mode'] == 'site':
        # the flipped cluster always contains the initial site
        moved = x0 != y0
        need(bool((X[moved, case['site'] % n] != Y[moved, case['site'] % n]).all()), 'a cluster without the initial site was flipped')
    ctx.tag(case['mode'])
    ctx.trivial(not np.any(J))


@P.sub('wolff_larger', lambda: st.fixed_dictionaries(dict(n=st.integers(7, 12), seed=gen.seeds, scale=st.sampled_from([.3, .8, 2.]), sparse=st.booleans(),
       sites=st.booleans())), quick=10, thorough=200)
def wolff_larger(case, ctx):
    """One cluster step from exact samples of larger systems leaves all moments as they were, and energies rise as often as they fall."""
    from coniii.samplers import WolffIsing
    from coniii.utils import pair_corr
    n = case['n']
    r = np.random.RandomState(case['seed'])
    m = n * (n - 1) // 2
    J = r.uniform(-1, 1.5, m) * case['scale'] / np.sqrt(n) * (1 if not case['sparse'] else r.rand(m) < .4)
    h = r.uniform(-1, 1, n) * .5
    S = states(n, True).astype(float)
    i, j = np.triu_indices(n, 1)
    F = np.concatenate([S, S[:, i] * S[:, j]], 1)
    E = -F.dot(np.concatenate([h, J]))
    p = np.exp(E.min() - E)
    p /= p.sum()
    N = 3000
    x = r.choice(len(S), size=N, p=p)
    w = WolffIsing(J, h)
    w.rng = np.random.RandomState(case['seed'] ^ 3)
    Y = S[x].copy()
    for k, row in enumerate(Y):
        w.one_step(row, initialsite=k % n if case['sites'] else None)
    need(bool(np.isin(Y, (-1, 1)).all()), 'values other than spins')
    y = ((Y > 0) @ (1 << np.arange(n)[::-1])).astype(int)
    need(bool((S[y] == Y).all()), 'numbering of the states')
    want = p.dot(F)
    got = F[y].mean(0)
    for k in range(F.shape[1]):
        binom_ok(int((F[y, k] > 0).sum()), N, (1 + want[k]) / 2, 'observable %d after a cluster step' % k)
    up, down = int((E[y] > E[x] + 1e-9).sum()), int((E[y] < E[x] - 1e-9).sum())
    if up + down:
        binom_ok(up, up + down, .5, 'steps that raise the energy')
    # the change of each observable is as often positive as negative
    D = F[y] - F[x]
    for k in range(F.shape[1]):
        a, b = int((D[:, k] > 0).sum()), int((D[:, k] < 0).sum())
        if a + b:
            binom_ok(a, a + b, .5, 'rises of observable %d' % k)
    need((x != y).any(), 'no cluster was ever flipped')
    ctx.tag('n=%d' % n)
    ctx.trivial(False)


@P.sub('wolff_start', cases=[[2, 0], [3, 2]])
def wolff_start(case, ctx):
    from coniii.samplers import WolffIsing
    n, k = case
    w = WolffIsing(np.full(n * (n - 1) // 2, .3), np.zeros(n))
    X = w.generate_sample(50, k)
    need(X.shape == (50, n) and bool(np.isin(X, (-1, 1)).all()), 'sample of shape %s', X.shape)
    Y = w._generate_sample(40, 2)
    need(Y.shape == (40, n) and bool(np.isin(Y, (-1, 1)).all()), 'sample of shape %s', Y.shape)
    need(len(np.unique(X)) == 2, 'all spins of 50 random states are equal')
    Z = w.generate_sample_parallel(50, k)
    need(Z.shape == (50, n) and set(np.unique(Z)) == {-1, 1}, 'spins of random states after parallel sampling: %s', np.unique(Z))
    w = WolffIsing(np.zeros(n * (n - 1) // 2), np.zeros(n))
    Y = w._generate_sample(40, 1)
    need(bool((np.abs(np.diff(Y, axis=0)).sum(1) == 2).all()), 'clusters of free spins are single spins')


@P.sub('check_e_logp', st.fixed_dictionaries(dict(n=st.integers(2, 4), seed=gen.seeds,
                                                     N=st.one_of(st.integers(1, 60), st.integers(200, 3000), st.integers(60000, 80000)))), quick=60, thorough=1000)
def check_e_logp_(case, ctx):
    from coniii.samplers import check_e_logp
    n = case['n']
    rng = np.random.RandomState(case['seed'])
    X = rng.choice([-1, 1], size=(case['N'], n))
    th = rng.uniform(-1, 1, nparams(n))
    U, E, lp = check_e_logp(X, lambda S: energy(S, th))
    c = np.bincount(index(X), minlength=2**n)
    need(sorted(index(U)) == np.flatnonzero(c).tolist(), 'states %s', U.tolist())
    close(E, energy(U, th), 'energies', atol=1e-9)
    close(lp, np.log(c[index(U)] / case['N']), 'log frequencies', atol=1e-9)


@P.sub('many_spins', gen.large(5, 45, kind=st.sampled_from(['ising', 'ising', 'potts']), sysit=st.booleans(), hist=st.booleans(),
                               scales=(.3, 1., 4., 40.)), quick=24, thorough=500)
def many_spins(case, ctx):
    """Every single step of a chain too large to enumerate."""
    from coniii.samplers import Metropolis, Potts3
    k = 2 if case['kind'] == 'ising' else 3
    n, th, h, J = chain.large_model(case, k)
    f = pkg(case['kind'])
    rng = np.random.RandomState(case['seed'])
    s = Potts3(n, th, calc_e=f, rng=rng, boost=False) if k == 3 else Metropolis(n, th, calc_e=f, rng=rng, boost=False, iprint=False)
    kw = dict(saveHistory=True) if case['hist'] else {}
    out = s.generate_sample(4000, n_iters=1, burn_in=20 * n, systematic_iter=case['sysit'], **kw)
    X = np.asarray(s.sample)
    E = energy(X, th) if k == 2 else potts_energy(X, th, 3)
    close(np.ravel(s.E), E, 'energies', rtol=1e-9, atol=1e-8 * (1 + np.abs(th).sum()))
    if case['hist']:
        close(np.ravel(out), E, 'history', rtol=1e-9, atol=1e-8 * (1 + np.abs(th).sum()))
    chain.check_steps(X, chain.acceptance(X, h, J, k), 'sample of %d spins' % n, case['sysit'])
    ctx.tag(case['kind'])
    ctx.tag('systematic', case['sysit'])
    ctx.trivial(not np.any(th))


turn_case = st.fixed_dictionaries(dict(kind=st.sampled_from(['ising', 'potts']), n=st.integers(3, 9), it=st.integers(1, 8), burn=st.integers(0, 12),
                                       N=st.integers(3, 60), hist=st.booleans(), calls=st.lists(st.booleans(), min_size=1, max_size=3), seed=gen.seeds))


@P.sub('in_turn', turn_case, quick=24, thorough=500)
def in_turn(case, ctx):
    """In zero field every proposal is accepted, so the order in which spins are visited can be read off the states."""
    import multiprocess as mp
    n, it = case['n'], 1 + case['it'] % (case['n'] - 1)
    k = 2 if case['kind'] == 'ising' else 3
    s = sampler(dict(case, th=np.zeros(n * (n + 1) // 2 if k == 2 else 3 * n + n * (n - 1) // 2)))
    for par in case['calls']:
        if par:
            N = case['N'] * mp.cpu_count() - case['N'] % 3
            s.generate_sample_parallel(N, n_iters=it, burn_in=case['burn'], systematic_iter=True)
            chain.turns(s.sample, it, np.arange(n), 'parallel sample', mp.cpu_count() - 1)
        else:
            N = case['N']
            h = s.generate_sample(N, n_iters=it, burn_in=case['burn'], systematic_iter=True, saveHistory=case['hist'])
            chain.turns(s.sample, it, np.arange(n), 'sample')
            if case['hist']:
                same(h, np.zeros(N * it), 'history')
        need(s.sample.shape == (N, n), 'sample has shape %s instead of %s', s.sample.shape, (N, n))
    ctx.tag(case['kind'])
    ctx.tag('parallel', any(case['calls']))


@P.sub('settling', turn_case, quick=16, thorough=300)
def settling(case, ctx):
    """In strong fields a step settles its spin (with two values): as many steps in turn as there are spins, in the burn-in or
    afterwards, settle all of them."""
    import multiprocess as mp
    n = case['n']
    pat = np.random.RandomState(case['seed']).choice([-1, 1], size=n)
    th = np.concatenate([60. * pat, np.zeros(n * (n - 1) // 2)])
    for par in case['calls']:
        for burn, it in ((n, 0), (0, n), (None, n), (n + 1, 1)):
            s = sampler(dict(kind='ising', n=n, th=th, seed=case['seed']))
            if par:
                s.generate_sample_parallel(2 * mp.cpu_count(), n_iters=it, burn_in=burn, systematic_iter=True)
            else:
                s.generate_sample(4, n_iters=it, burn_in=burn, systematic_iter=True)
            need(bool((s.sample == pat).all()), '%r + %r steps in turn did not settle %d spins', burn, it, n)


weak_case = st.fixed_dictionaries(dict(kind=st.sampled_from(['ising', 'potts']), n=st.integers(2, 5), de=st.floats(-7, 1.2), site=st.integers(0, 4),
                                       big=st.sampled_from([0., 3., 1e3]), seed=gen.seeds))


@P.sub('rejection_rate', weak_case, quick=24, thorough=500)
def rejection_rate(case, ctx):
    """Changes of energy from 0.001 to 3 are rejected with probability 1 - exp(-dE), whatever the energy itself."""
    n, de, i = case['n'], float(np.exp(case['de'])), case['site'] % case['n']
    k = 2 if case['kind'] == 'ising' else 3
    from coniii.samplers import Metropolis, Potts3
    f = lambda X, t: case['big'] + de * (np.asarray(X)[:, i] != 1)
    rng = np.random.RandomState(case['seed'])
    th = np.zeros(n * (n + 1) // 2 if k == 2 else 3 * n + n * (n - 1) // 2)
    s = Potts3(n, th, calc_e=f, rng=rng, boost=False) if k == 3 else Metropolis(n, th, calc_e=f, rng=rng, boost=False, iprint=False)
    x0 = np.ones(n, dtype=int)
    N = 20000
    out = 0
    for _ in range(N):
        x = x0.copy()
        d = s.sample_metropolis(x, case['big'], flip_site=i)
        out += x[i] != 1
        need(abs(np.ravel(d)[0] - de * (x[i] != 1)) < 1e-9, 'returned a change of %r instead of %r', d, de)
    from vh.oracle import binom_ok
    binom_ok(N - out, N, -np.expm1(-de), 'rejections of a change of energy by %.4g' % de)
    ctx.tag(case['kind'])
    ctx.tag('small change', de < .05)


@P.sub('wolff_single', st.fixed_dictionaries(dict(n=st.integers(1, 6), h=gen.vec(6, gen.reals(2.)), seed=gen.seeds, zero=st.booleans())), quick=24, thorough=400)
def wolff_single(case, ctx):
    """Without couplings a cluster is a single spin, which flips with probability min(1, exp(-dE))."""
    from coniii.samplers import WolffIsing
    n = case['n']
    h = np.zeros(n) if case['zero'] else np.array(case['h'][:n])
    rng = np.random.RandomState(case['seed'])
    w = WolffIsing(np.zeros((n, n)), h)
    w.rng = rng
    s0 = rng.choice([-1., 1.], size=n)
    N = 4000
    site = int(rng.randint(n))
    hits, seen = 0, np.zeros(n + 1)
    for t in range(N):
        s = s0.copy()
        if case['zero']:
            w.one_step(s)
            d = np.flatnonzero(s != s0)
            need(len(d) == 1, '%d spins flip without fields and couplings', len(d))
            seen[d[0]] += 1
        else:
            w.one_step(s, initialsite=site)
            need(bool((np.delete(s, site) == np.delete(s0, site)).all()), 'another spin than the given one flips without couplings')
            hits += s[site] != s0[site]
    if case['zero']:
        chi2(seen[:n], np.full(n, 1 / n), 'first site of a cluster')
    else:
        p = np.exp(-max(0., 2 * h[site] * s0[site]))
        binom_ok(hits, N, p, 'flips of a spin in field %.3g' % (h[site] * s0[site]))
    ctx.trivial(not np.any(h))


parallel_case = st.fixed_dictionaries(dict(kind=st.sampled_from(['ising', 'potts']), n=st.integers(5, 30), burn=st.integers(0, 9), it=st.integers(1, 9),
                                           sysit=st.booleans(), calls=st.integers(1, 3), seed=gen.seeds))


@P.sub('parallel_continues', parallel_case, quick=8, thorough=200)
def parallel_continues(case, ctx):
    """Each replica of a parallel sample carries on from its own last state."""
    import multiprocess as mp
    n, k = case['n'], 2 if case['kind'] == 'ising' else 3
    th = np.random.RandomState(case['seed']).uniform(-.5, .5, n * (n + 1) // 2 if k == 2 else 3 * n + n * (n - 1) // 2)
    from coniii.samplers import Metropolis, Potts3
    f, rng = pkg(case['kind']), np.random.RandomState(case['seed'])
    s = Potts3(n, th, calc_e=f, rng=rng, boost=False) if k == 3 else Metropolis(n, th, calc_e=f, rng=rng, boost=False, iprint=False)
    m = mp.cpu_count()
    last = None
    for c in range(case['calls']):
        s.generate_sample_parallel(2 * m, n_iters=case['it'], burn_in=case['burn'], systematic_iter=case['sysit'])
        X = np.asarray(s.sample).reshape(m, 2, n)
        if last is not None:
            # n spins cannot change in fewer steps, in whatever order the replicas are listed
            d = (X[:, None, 0] != last[None]).sum(2).min(1)
            need(d.max() <= case['burn'] + case['it'], 'a replica is %d spins from all earlier ones after %d steps', d.max(), case['burn'] + case['it'])
        last = X[:, 1].copy()
    s.generate_sample_parallel(2 * m, n_iters=0, burn_in=0, systematic_iter=case['sysit'])
    X = np.asarray(s.sample).reshape(m, 2, n)
    for a in (0, 1):
        same(sorted(X[:, a].tolist()), sorted(last.tolist()), 'states after no further steps')
    ctx.tag(case['kind'])
