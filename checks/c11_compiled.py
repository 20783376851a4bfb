"""C11: the compiled samplers."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, chain
from vh.core import Prop
from vh.oracle import need, close, same, states, energy, index, chi2, nparams, potts_states, potts_energy, potts_index

P = Prop('C11', 'generated parameters, array layouts, call sequences and seeds for the C++ Ising and Potts samplers and their '
         'Python front ends; recorded transitions are compared with the exact Metropolis kernel; non-trivial: parameters not all zero')


def ext():
    from coniii.samplers_ext import BoostIsing, BoostPotts3
    return BoostIsing, BoostPotts3


def layout(a, how):
    a = np.array(a, float)
    if how == 'strided':
        b = np.full(2 * len(a), 99.)
        b[::2] = a
        return b[::2]
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'column':
        b = np.full((len(a), 3), -7.)
        b[:, 1] = a
        return b[:, 1]
    if how == 'float32':
        return a.astype(np.float32)
    if how == 'int':
        return np.round(a).astype(int)
    if how == 'readonly':
        a.flags.writeable = False
        return a
    if how == 'swapped':
        return a.astype('>f8')
    return a


LAYOUTS = ['plain', 'plain', 'strided', 'reversed', 'column', 'float32', 'int', 'readonly', 'swapped']


@st.composite
def base(draw, kind=None):
    kind = kind or draw(st.sampled_from(['ising', 'potts']))
    n = draw(st.integers(2, 5 if kind == 'ising' else 3))
    size = nparams(n) if kind == 'ising' else 3 * n + n * (n - 1) // 2
    scale = draw(st.sampled_from([0., .5, 1., 2., 3.]))
    el = gen.smooth(scale) if draw(st.booleans()) else gen.reals(scale)
    return dict(kind=kind, n=n, th=draw(gen.vec(size, el)), seed=draw(gen.seeds), layout=draw(st.sampled_from(LAYOUTS)))


def model(case, th):
    n = case['n']
    th = np.array(th, dtype=float)
    if case['kind'] == 'potts':
        return potts_energy(potts_states(n, 3), th, 3), 3, lambda X: potts_index(X, 3)
    return energy(states(n, True), th), 2, index


def valid(X, N, case):
    need(X.shape == (N, case['n']), 'sample has shape %s instead of %s', X.shape, (N, case['n']))
    need(bool(np.isin(X, (-1, 1) if case['kind'] == 'ising' else (0, 1, 2)).all()), 'sample has entries %s', np.unique(X)[:5])


@st.composite
def chain_case(draw):
    c = draw(base())
    c.update(n_iters=draw(st.integers(1, 9)), burn=draw(st.integers(0, 5)), sysit=draw(st.booleans()))
    return c


@P.sub('transitions', chain_case, quick=150, thorough=4000)
def transitions(case, ctx):
    I, Q = ext()
    th = layout(case['th'], case['layout'])
    keep = np.array(th)
    b = (I if case['kind'] == 'ising' else Q)(case['n'], th, case['seed'])
    N = 30000
    b.generate_sample(N, case['burn'], case['n_iters'], case['sysit'])
    X = b.fetch_sample()
    valid(X, N, case)
    E, k, ix = model(case, keep)
    chain.check(ix(X), chain.site_kernels(E, case['n'], k), case['n_iters'], case['sysit'], 'sample')
    same(np.array(th), keep, 'the given parameters')
    ctx.tag(case['kind'])
    ctx.tag(case['layout'])
    ctx.tag('systematic', case['sysit'])
    ctx.trivial(not np.any(keep))


@P.sub('front_end', chain_case, quick=80, thorough=2000)
def front_end(case, ctx):
    """Metropolis and Potts3 with their default (compiled) methods, given a non-contiguous vector."""
    from coniii.samplers import Metropolis, Potts3
    th = layout(case['th'], case['layout'])
    E, k, ix = model(case, th)
    rng = np.random.RandomState(case['seed'])
    s = Metropolis(case['n'], th, rng=rng, iprint=False) if case['kind'] == 'ising' else Potts3(case['n'], th, rng=rng)
    N = 20000
    Ks = chain.site_kernels(E, case['n'], k)
    kw = dict(n_iters=case['n_iters'], systematic_iter=case['sysit'])
    if case['burn'] != 5:
        kw['burn_in'] = case['burn']
    s.generate_sample(N, **kw)
    valid(s.sample, N, case)
    chain.check(ix(s.sample), Ks, case['n_iters'], case['sysit'], 'sample')
    first = s.sample.copy()
    s.generate_sample(50, n_iters=case['n_iters'])
    valid(s.sample, 50, case)
    # a second call with new parameters uses those
    th2 = np.array(case['th'][::-1]) * .7 + .1
    s.update_parameters(th2)
    E2, k, ix = model(case, th2)
    s.generate_sample(N, **kw)
    chain.check(ix(s.sample), chain.site_kernels(E2, case['n'], k), case['n_iters'], case['sysit'], 'sample after update_parameters')
    t = (Metropolis(case['n'], th, rng=np.random.RandomState(case['seed']), iprint=False) if case['kind'] == 'ising'
         else Potts3(case['n'], th, rng=np.random.RandomState(case['seed'])))
    t.generate_sample(N, **kw)
    same(t.sample, first, 'sample of an equal sampler with an equal generator')
    ctx.trivial(not np.any(th))


@st.composite
def seq_case(draw):
    c = draw(base())
    ops = st.fixed_dictionaries(dict(op=st.sampled_from(['sample', 'sample', 'read', 'fetch']), N=st.integers(1, 40),
                                     n_iters=st.integers(0, 6), burn=st.integers(0, 4), sysit=st.booleans(),
                                     scale=st.sampled_from([-1., .5, 0., 2.]), layout=st.sampled_from(LAYOUTS)))
    c['ops'] = draw(st.lists(ops, min_size=2, max_size=8))
    return c


@P.sub('call_sequences', seq_case, quick=150, thorough=4000)
def call_sequences(case, ctx):
    """Two equal samplers given the same calls stay equal; samples always have the last requested size;
    after the calls the sampler samples with the parameters it was given last."""
    I, Q = ext()
    C = I if case['kind'] == 'ising' else Q
    th = layout(case['th'], case['layout'])
    a, b = C(case['n'], th, case['seed']), C(case['n'], th, case['seed'])
    cur = np.array(th, float)
    N = 0
    for o in case['ops']:
        if o['op'] == 'read' and case['kind'] == 'ising':
            new = layout(cur * o['scale'] + .25, o['layout'])
            cur = np.array(new, float)
            a.readin_multipliers(new)
            b.readin_multipliers(new)
            ctx.tag('new parameters')
        elif o['op'] == 'sample':
            N = o['N']
            for s in (a, b):
                s.generate_sample(N, o['burn'], o['n_iters'], o['sysit'])
        if N:
            X, Y = a.fetch_sample(), b.fetch_sample()
            valid(X, N, case)
            same(X, Y, 'samples of two equal samplers')
            same(a.fetch_sample(), X, 'a second fetch')
            if o['op'] == 'sample' and o['n_iters'] == 0:
                same(X, np.tile(X[:1], (N, 1)), 'sample without steps')
    E, k, ix = model(case, cur)
    a.generate_sample(8000, 0, 2, False)
    chain.check(ix(a.fetch_sample()), chain.site_kernels(E, case['n'], k), 2, False, 'sample after the calls')
    ctx.trivial(not np.any(cur))


@st.composite
def from_case(draw):
    c = draw(base())
    c.update(n_iters=draw(st.integers(0, 4)), burn=draw(st.sampled_from([0, 1, 2, 3, 4, None])), sysit=draw(st.booleans()), front=draw(st.booleans()))
    return c


@P.sub('first_sample', from_case, quick=40, thorough=600)
def first_sample(case, ctx):
    """Over seeds, the first recorded state is a uniform start followed by burn_in + n_iters steps (as many as n_iters for the default
    burn-in of the Python front ends)."""
    from coniii.samplers import Metropolis, Potts3
    I, Q = ext()
    burn = case['n_iters'] if case['burn'] is None else case['burn']
    C = I if case['kind'] == 'ising' else Q
    th = layout(case['th'], case['layout'])
    E, k, ix = model(case, th)
    X = []
    if case['front']:
        rng = np.random.RandomState(case['seed'])
        b = Metropolis(case['n'], th, rng=rng, iprint=False) if case['kind'] == 'ising' else Potts3(case['n'], th, rng=rng)
        for i in range(4000):
            b.generate_sample(1, n_iters=case['n_iters'], burn_in=case['burn'], systematic_iter=case['sysit'])
            X.append(b.sample[0])
    else:
        for i in range(4000):
            b = C(case['n'], th, (case['seed'] + 7919 * i) % 2**31)
            b.generate_sample(1, burn, case['n_iters'], case['sysit'])
            X.append(b.fetch_sample()[0])
    u = np.full(len(E), 1. / len(E))
    Ks = chain.site_kernels(E, case['n'], k)
    steps = burn + case['n_iters']
    c = np.bincount(ix(np.array(X)), minlength=len(E))
    if case['sysit']:
        from vh.oracle import Mismatch
        fails = []
        for o in range(case['n']):
            for o2 in {o, (o + burn) % case['n']}:
                try:
                    chi2(c, u.dot(chain.sweep(Ks, o, burn)).dot(chain.sweep(Ks, o2, case['n_iters'])), 'first state')
                except Mismatch as e:
                    fails.append(e)
                    continue
                ctx.trivial(not steps)
                return
        raise fails[0]
    chi2(c, u.dot(chain.random_scan(Ks, steps)), 'first state after %d + %d steps' % (burn, case['n_iters']))
    ctx.tag('front end' if case['front'] else 'extension')
    ctx.trivial(not steps)


@st.composite
def parallel_burn_case(draw):
    n = draw(st.integers(32, 45))
    return dict(kind=draw(st.sampled_from(['ising', 'potts'])), n=n, seed=draw(gen.seeds), sysit=draw(st.booleans()),
                pat=draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)))


@P.sub('parallel_burn_in', parallel_burn_case, quick=10, thorough=150)
def parallel_burn_in(case, ctx):
    """Parallel samples start from random states and take the burn-in and the steps asked for: with strong fields only
    enough of them settle."""
    import multiprocess as mp
    from coniii.samplers import Metropolis, Potts3
    n = case['n']
    if case['kind'] == 'ising':
        pat = 2 * (np.array(case['pat'][:n]) % 2) - 1
        th = np.zeros(nparams(n))
        th[:n] = 50. * pat
        s = Metropolis(n, th, rng=np.random.RandomState(case['seed']), iprint=False)
    else:
        pat = np.array(case['pat'][:n])
        th = np.zeros(3 * n + n * (n - 1) // 2)
        th[pat * n + np.arange(n)] = 50.
        s = Potts3(n, th, rng=np.random.RandomState(case['seed']), n_cpus=3)
    kw = dict(systematic_iter=case['sysit'])
    for burn, it, settled in ((200 * n, 0, True), (0, 0, False), (0, 200 * n, True), (None, 100 * n, True), (None, 0, False)):
        N = 160
        s.generate_sample_parallel(N, n_iters=it, burn_in=burn, **kw)
        valid(np.asarray(s.sample), N, case)
        if settled:
            need(bool((s.sample == pat).all()), 'not settled after %r + %r steps', burn, it)
        else:
            need(not (s.sample == pat).all(1).any(), 'a random start agrees with the fields at all %d spins', n)
            need(len(np.unique(s.sample, axis=0)) <= max(3, mp.cpu_count()), 'more states than processes, without any step')
    ctx.tag(case['kind'])


@P.sub('pickle', base('potts'), quick=40, thorough=400)
def pickle_(case, ctx):
    """The Potts sampler survives pickling with its size and parameters."""
    import pickle
    I, Q = ext()
    th = layout(case['th'], case['layout'])
    b = pickle.loads(pickle.dumps(Q(case['n'], th, case['seed'])))
    b.generate_sample(15000, 0, 2, False)
    E, k, ix = model(case, th)
    valid(b.fetch_sample(), 15000, case)
    chain.check(ix(b.fetch_sample()), chain.site_kernels(E, case['n'], k), 2, False, 'sample of the unpickled sampler')
    ctx.trivial(not np.any(th))


@P.sub('larger_systems', st.fixed_dictionaries(dict(n=st.integers(6, 40), seed=gen.seeds, kind=st.sampled_from(['ising', 'potts']),
                                                       scale=st.sampled_from([1., 1., 300., 1e5]))),
       quick=40, thorough=800)
def larger(case, ctx):
    """Chains of larger systems: strong random fields decide every spin, and flipping two spins in
    turn follows the exact kernel when the others are pinned by fields."""
    I, Q = ext()
    n = case['n']
    rng = np.random.RandomState(case['seed'])
    free = sorted(rng.choice(n, size=2, replace=False))
    J = np.zeros((n, n))
    iu = np.triu_indices(n, 1)
    J[iu] = rng.uniform(-1, 1, len(iu[0]))
    J = J + J.T
    big = case['scale']
    strength = 500. if big == 1 else 20 * n * big
    if big > 1:             # strong couplings to the pinned spins, which fields of the free ones compensate
        a, b = free
        keep = J[a, b]
        J = np.round(J * big)
        J[a, b] = J[b, a] = keep
    if case['kind'] == 'ising':
        pin = rng.choice([-1, 1], size=n)
        h = strength * pin
        h[free] = rng.uniform(-.5, .5, 2)
        if big > 1:
            for i in free:
                h[i] -= sum(J[i, j] * pin[j] for j in range(n) if j not in free)
        b = I(n, np.concatenate([h, J[iu]]), case['seed'])
        b.generate_sample(4000, 60 * n, 2 * n, False)
        X = b.fetch_sample()
        rest = [i for i in range(n) if i not in free]
        need(bool((X[:, rest] == pin[rest]).all()), 'spins in a strong field point against it')
        heff = [h[i] + J[i, rest].dot(pin[rest]) for i in free]
        E = energy(states(2, True), np.array(heff + [J[free[0], free[1]]]))
        ix = index(X[:, free])
        kern = chain.site_kernels(E, 2, 2)
    else:
        pin = rng.randint(0, 3, size=n)
        h = np.zeros((3, n))
        h[pin, np.arange(n)] = strength
        h[:, free] = rng.uniform(-.5, .5, (3, 2))
        if big > 1:
            for i in free:
                for j in range(n):
                    if j not in free:
                        h[pin[j], i] -= J[i, j]
        b = Q(n, np.concatenate([h.ravel(), J[iu]]), case['seed'])
        b.generate_sample(4000, 60 * n, 2 * n, False)
        X = b.fetch_sample()
        rest = [i for i in range(n) if i not in free]
        need(bool((X[:, rest] == pin[rest]).all()), 'spins in a strong field are in another state')
        heff = h[:, free].copy()
        for a, i in enumerate(free):
            for j in rest:
                heff[pin[j], a] += J[i, j]
        E = potts_energy(potts_states(2, 3), np.concatenate([heff.ravel(), [J[free[0], free[1]]]]), 3)
        ix = potts_index(X[:, free], 3)
        kern = chain.site_kernels(E, 2, 3)
    # each step picks a free spin with probability 2/n
    K = sum(kern) / n + (n - 2.) / n * np.eye(len(E))
    T = chain.power(K, 2 * n)
    p, info = chain.rows_pvalue(chain.pair_counts(ix[:-1], ix[1:], len(E)), T)
    need(p > 1e-10, 'transitions of two free spins among %d differ from Metropolis steps (p=%.1e, %s)', n, p, info)


@P.sub('many_spins', gen.large(6, 140, kind=st.sampled_from(['ising', 'ising', 'potts']), sysit=st.booleans(), front=st.booleans(),
                               scales=(.3, 1., 4., 40.)), quick=40, thorough=1000)
def many_spins(case, ctx):
    """Every single step of a chain too large to enumerate."""
    from coniii.samplers import Metropolis, Potts3
    I, Q = ext()
    k = 2 if case['kind'] == 'ising' else 3
    n, th, h, J = chain.large_model(case, k)
    if case['front']:
        rng = np.random.RandomState(case['seed'])
        f = lambda X, t: energy(X, t)
        s = Potts3(n, th, calc_e=f, rng=rng, boost=True) if k == 3 else Metropolis(n, th, calc_e=f, rng=rng, boost=True, iprint=False)
        s.generate_sample(12000, n_iters=1, burn_in=20 * n, systematic_iter=case['sysit'])
        X = s.sample
    else:
        b = (I if k == 2 else Q)(n, th, case['seed'])
        b.generate_sample(12000, 20 * n, 1, case['sysit'])
        X = b.fetch_sample()
    valid(X, 12000, dict(case, n=n))
    X = np.asarray(X).astype(int)
    chain.check_steps(X, chain.acceptance(X, h, J, k), 'sample of %d spins' % n, case['sysit'])
    ctx.tag(case['kind'])
    ctx.tag('front end', case['front'])
    ctx.trivial(not np.any(th))


turn_case = st.fixed_dictionaries(dict(kind=st.sampled_from(['ising', 'potts']), n=st.integers(3, 12), it=st.integers(1, 11), burn=st.integers(0, 12),
                                       N=st.integers(3, 60), how=st.sampled_from(['extension', 'extension', 'front', 'parallel']), seed=gen.seeds))


@P.sub('in_turn', turn_case, quick=60, thorough=1200)
def in_turn(case, ctx):
    """In zero field every proposal is accepted, so the order in which spins are visited can be read off the states; in strong
    fields n steps in turn settle n spins."""
    import multiprocess as mp
    from coniii.samplers import Metropolis, Potts3
    I, Q = ext()
    n, it = case['n'], 1 + case['it'] % (case['n'] - 1)
    ising = case['kind'] == 'ising'
    pat = np.random.RandomState(case['seed']).choice([-1, 1], size=n)
    P_ = mp.cpu_count() if ising else 3

    def draw(th, N, burn, it):
        rng = np.random.RandomState(case['seed'])
        if case['how'] == 'extension':
            b = (I if ising else Q)(n, th, case['seed'])
            b.generate_sample(N, burn, it, True)
            return b.fetch_sample()
        s = Metropolis(n, th, rng=rng, iprint=False) if ising else Potts3(n, th, rng=rng, n_cpus=P_)
        (s.generate_sample if case['how'] == 'front' else s.generate_sample_parallel)(N, n_iters=it, burn_in=burn, systematic_iter=True)
        return s.sample
    th = np.zeros(n * (n + 1) // 2 if ising else 3 * n + n * (n - 1) // 2)
    par = case['how'] == 'parallel'
    N = case['N'] * P_ - case['N'] % 3 if par else case['N']
    X = draw(th, N, case['burn'], it)
    valid(X, N, case)
    chain.turns(X, it, np.arange(n), 'sample', P_ - 1 if par else 0)
    if ising:
        th[:n] = 60. * pat
        for burn, k in ((n, 0), (0, n), (n + 1, 1)):
            X = draw(th, 2 * P_, burn, k)
            need(bool((X == pat).all()), '%r + %r steps in turn did not settle %d spins', burn, k, n)
    ctx.tag(case['kind'])
    ctx.tag(case['how'])


@P.sub('sample_sizes', st.fixed_dictionaries(dict(kind=st.sampled_from(['ising', 'potts']), n=st.integers(2, 9), sizes=st.lists(st.integers(1, 70), min_size=2, max_size=4),
                                                  it=st.integers(0, 3), cpus=st.integers(2, 5), sysit=st.booleans(), seed=gen.seeds)), quick=16, thorough=300)
def sample_sizes(case, ctx):
    """Parallel samples have any size that is asked for (the Potts sampler needs more states than processes)."""
    from coniii.samplers import Metropolis, Potts3
    n, rng = case['n'], np.random.RandomState(case['seed'])
    if case['kind'] == 'ising':
        s = Metropolis(n, rng.normal(size=n * (n + 1) // 2), rng=rng, iprint=False)
    else:
        s = Potts3(n, rng.normal(size=3 * n + n * (n - 1) // 2), rng=rng, n_cpus=case['cpus'])
    for N in case['sizes']:
        N += case['cpus'] if case['kind'] == 'potts' else 0
        s.generate_sample_parallel(N, n_iters=case['it'], burn_in=2, systematic_iter=case['sysit'])
        valid(np.asarray(s.sample), N, case)


@P.sub('new_draws', st.fixed_dictionaries(dict(n=st.integers(45, 90), kind=st.sampled_from(['ising', 'ising', 'potts']), seed=gen.seeds, iters=st.sampled_from([25, 60]),
                                               conditional=st.booleans())), quick=10, thorough=200)
def new_draws(case, ctx):
    """Every call, and every process of a parallel call, draws its own states: in a system of many free spins no state comes twice."""
    from coniii.samplers import Metropolis, Potts3
    n = case['n']
    rng = np.random.RandomState(case['seed'])
    if case['kind'] == 'ising':
        s = Metropolis(n, np.zeros(nparams(n)), rng=rng, iprint=False)
    else:
        s = Potts3(n, np.zeros(3 * n + n * (n - 1) // 2), rng=rng, n_cpus=3)
    rows = []
    for k in range(40):
        s.generate_sample(1, case['iters'], burn_in=1)
        rows.append(tuple(np.asarray(s.sample)[0].tolist()))
    need(len(set(rows)) >= 39, '%d different states after 40 calls', len(set(rows)))
    rows = []
    for k in range(2):
        s.generate_sample_parallel(30, case['iters'], burn_in=1)
        X = np.asarray(s.sample)
        need(X.shape == (30, n), 'sample of shape %s', X.shape)
        rows += [tuple(r) for r in X.tolist()]
    need(len(set(rows)) >= 59, '%d different states among 60 of two parallel calls', len(set(rows)))
    if case['kind'] == 'ising' and case['conditional']:
        rows = []
        for k in range(20):
            s.generate_cond_sample(1, [(0, 1), (n - 1, -1)], n_iters=case['iters'], burn_in=1)
            rows.append(tuple(np.asarray(s.sample)[0].tolist()))
        need(len(set(rows)) >= 19, '%d different states after 20 conditional calls', len(set(rows)))
    ctx.tag(case['kind'])
    ctx.trivial(False)
