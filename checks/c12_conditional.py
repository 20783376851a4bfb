"""C12: conditional sampling."""
import numpy as np
from hypothesis import strategies as st
from vh import gen, chain
from vh.core import Prop
from vh.oracle import need, close, same, states, energy, index, nparams, chi2

P = Prop('C12', 'generated parameters and proper subsets of fixed spins; recorded transitions of the free spins are compared with the '
         'exact conditional Metropolis kernel; non-trivial: parameters not all zero and at least two free spins')


@st.composite
def base(draw, top=5):
    pairs = [(n, k) for n in range(3, top + 1) for k in range(1, n - 1)]
    n, k = draw(st.sampled_from(pairs * 2 + [(n, n - 1) for n in range(2, top + 1)]))
    fixed = sorted(draw(st.permutations(range(n)))[:k])
    scale = draw(st.sampled_from([.5, 1., 1., 2., 0.]))
    el = gen.smooth(scale) if draw(st.booleans()) else gen.reals(scale)
    return dict(n=n, th=draw(gen.vec(nparams(n), el)), fixed=[[i, draw(st.sampled_from([-1, 1]))] for i in fixed],
                seed=draw(gen.seeds), n_iters=draw(st.integers(1, 7)), burn=draw(st.integers(0, 5)), sysit=draw(st.booleans()))


def conditional(case, f=energy):
    """All states of the free spins (as full states) in counting order, and their energies."""
    n = case['n']
    fx = dict(map(tuple, case['fixed']))
    free = [i for i in range(n) if i not in fx]
    sub = states(len(free), True)
    S = np.zeros((len(sub), n), dtype=int)
    for i, v in fx.items():
        S[:, i] = v
    S[:, free] = sub
    return free, S, f(S, np.array(case['th'], float))


def fixed_ok(X, case, N):
    need(X.shape == (N, case['n']), 'sample has shape %s instead of %s', X.shape, (N, case['n']))
    need(bool(np.isin(X, (-1, 1)).all()), 'sample has entries %s', np.unique(X)[:5])
    for i, v in case['fixed']:
        need(bool((X[:, i] == v).all()), 'spin %d is not held at %d in %d of %d states', i, v, int((X[:, i] != v).sum()), N)


def duples(case):
    return [tuple(d) for d in case['fixed']]


def tags(case, free, ctx):
    fx = [d[0] for d in case['fixed']]
    ctx.tag('first spin fixed', 0 in fx)
    ctx.tag('last spin fixed', case['n'] - 1 in fx)
    ctx.tag('adjacent fixed spins', any(b - a == 1 for a, b in zip(fx, fx[1:])))
    ctx.tag('systematic', case['sysit'])
    ctx.trivial(len(free) < 2 or not np.any(case['th']))


@P.sub('python', base(), quick=70, thorough=1500)
def python(case, ctx):
    from coniii.samplers import Metropolis
    from coniii import utils
    global _F
    if '_F' not in globals():
        _F = utils.define_ising_helper_functions()[0]
    free, S, E = conditional(case)
    s = Metropolis(case['n'], np.array(case['th'], float), calc_e=_F, rng=np.random.RandomState(case['seed']),
                   boost=False, iprint=False)
    N = 1500
    keep = duples(case)
    fs = duples(case)
    s.generate_cond_sample(N, fs, burn_in=case['burn'], n_iters=case['n_iters'], systematic_iter=case['sysit'])
    need(fs == keep, 'the given subset was changed to %s', fs)
    X = s.sample
    fixed_ok(X, case, N)
    ix = index(X[:, free])
    close(np.ravel(s.E), E[ix], 'energies', rtol=0, atol=1e-8)
    close(s.calc_e(X, np.array(case['th'], float)), E[ix], 'energy function of the sampler on its sample', rtol=0, atol=1e-8)
    chain.check(ix, chain.site_kernels(E, len(free), 2), case['n_iters'], case['sysit'], 'free spins')
    tags(case, free, ctx)


@P.sub('python_any_energy', base(), quick=25, thorough=400)
def python_any(case, ctx):
    """With an energy that has interactions of all orders."""
    from coniii.samplers import Metropolis
    def f(X, th):
        X = np.asarray(X)
        return energy(X, th) + .8 * X[:, 0] * X[:, -1] * X[:, len(X[0]) // 2] - .3 * X.prod(1)
    free, S, E = conditional(case, f)
    s = Metropolis(case['n'], np.array(case['th'], float), calc_e=f, rng=np.random.RandomState(case['seed']),
                   boost=False, iprint=False)
    s.generate_cond_sample(700, duples(case), burn_in=case['burn'], n_iters=case['n_iters'], systematic_iter=case['sysit'])
    fixed_ok(s.sample, case, 700)
    ix = index(s.sample[:, free])
    close(np.ravel(s.E), E[ix], 'energies', rtol=0, atol=1e-8)
    chain.check(ix, chain.site_kernels(E, len(free), 2), case['n_iters'], case['sysit'], 'free spins')
    tags(case, free, ctx)


@P.sub('compiled', base(6), quick=150, thorough=4000)
def compiled(case, ctx):
    from coniii.samplers import Metropolis
    free, S, E = conditional(case)
    def fresh():
        return Metropolis(case['n'], np.array(case['th'], float), rng=np.random.RandomState(case['seed']), iprint=False)
    s = fresh()
    N = 15000
    kw = dict(burn_in=case['burn'], n_iters=case['n_iters'], systematic_iter=case['sysit'], parallel=False)
    s.generate_cond_sample(N, duples(case), **kw)
    X = s.sample
    fixed_ok(X, case, N)
    ix = index(X[:, free])
    chain.check(ix, chain.site_kernels(E, len(free), 2), case['n_iters'], case['sysit'], 'free spins')
    t = fresh()
    t.generate_cond_sample(N, duples(case), **kw)
    same(t.sample, X, 'sample of an equal sampler with an equal generator')
    # an ordinary sample afterwards is not conditioned
    s.generate_sample(3000, n_iters=3)
    E2 = energy(states(case['n'], True), np.array(case['th'], float))
    chain.check(index(s.sample), chain.site_kernels(E2, case['n'], 2), 3, False, 'ordinary sample after a conditional one')
    tags(case, free, ctx)


@P.sub('compiled_direct', base(6), quick=80, thorough=2000)
def direct(case, ctx):
    from coniii.samplers_ext import BoostIsing
    free, S, E = conditional(case)
    b = BoostIsing(case['n'], np.array(case['th'], float), case['seed'])
    if case['seed'] % 3:
        dt = ['int32', 'int64', 'int8', 'int16'][case['seed'] % 4]
        i, v = np.array(case['fixed']).astype(dt).T          # columns of a table
        ctx.tag('fixed spins given as ' + dt)
    else:
        i = np.array([d[0] for d in case['fixed']], dtype=np.int32)
        v = np.array([d[1] for d in case['fixed']], dtype=np.int32)
    for N in (10, 15000):
        b.generate_cond_sample(i, v, N, case['burn'], case['n_iters'], case['sysit'])
        X = b.fetch_sample()
        fixed_ok(X, case, N)
    chain.check(index(X[:, free]), chain.site_kernels(E, len(free), 2), case['n_iters'], case['sysit'], 'free spins')
    b.generate_sample(3000, 0, 3, False)
    E2 = energy(states(case['n'], True), np.array(case['th'], float))
    chain.check(index(b.fetch_sample()), chain.site_kernels(E2, case['n'], 2), 3, False, 'ordinary sample after a conditional one')
    tags(case, free, ctx)


@P.sub('parallel', base(4), quick=16, thorough=300)
def parallel(case, ctx):
    """Chains run in several processes; enough steps are made that records are independent."""
    from coniii.samplers import Metropolis
    free, S, E = conditional(case)
    K = chain.site_kernels(E, len(free), 2)
    p = np.exp(-(E - E.min()))
    p /= p.sum()
    k = 8
    while k < 4000 and np.abs(chain.random_scan(K, k) - p).max() > 1e-6:
        k *= 2
    if k >= 4000:
        ctx.trivial()
        return
    s = Metropolis(case['n'], np.array(case['th'], float), rng=np.random.RandomState(case['seed']), iprint=False)
    for N in (4001, 3):
        s.generate_cond_sample(N, duples(case), burn_in=2 * k, n_iters=k)
        fixed_ok(s.sample, case, N)
        if N > 3:
            chi2(np.bincount(index(s.sample[:, free]), minlength=len(p)), p, 'free spins of the parallel sample')
            first = s.sample
    t = Metropolis(case['n'], np.array(case['th'], float), rng=np.random.RandomState(case['seed']), iprint=False)
    t.generate_cond_sample(4001, duples(case), burn_in=2 * k, n_iters=k, parallel=True)
    same(t.sample, first, 'parallel sample of an equal sampler with an equal generator')
    tags(case, free, ctx)


@P.sub('rejected', base(4), quick=60, thorough=500)
def rejected(case, ctx):
    """Fixed spins out of order or with values that a spin cannot have are not accepted silently."""
    from coniii.samplers import Metropolis
    from vh.oracle import raises
    for boost in (True, False):
        s = Metropolis(case['n'], np.array(case['th'], float), calc_e=lambda X, t: energy(X, t), boost=boost, iprint=False)
        kw = dict(burn_in=1, n_iters=1, parallel=False)
        fx = duples(case)
        raises(lambda: s.generate_cond_sample(5, fx[:-1] + [(fx[-1][0], 0)], **kw), 'a spin fixed at 0')
        if len(fx) > 1:
            raises(lambda: s.generate_cond_sample(5, fx[::-1], **kw), 'fixed spins in decreasing order')
        raises(lambda: s.generate_cond_sample(5, fx + [(fx[-1][0], -fx[-1][1])], **kw), 'a spin fixed twice')


@P.sub('energy_of_free_spins', base(5), quick=8, thorough=120)
def jit_energy(case, ctx):
    from coniii.samplers import define_jit_cond_calc_e
    from coniii import utils
    global _F
    if '_F' not in globals():
        _F = utils.define_ising_helper_functions()[0]
    free, S, E = conditional(case)
    f = define_jit_cond_calc_e(case['n'], _F, np.array(case['fixed']).ravel())
    th = np.array(case['th'], float)
    for x, e in zip(S, E):
        close(np.ravel(f(x[free][None, :], th)), [e], 'energy of %s with %s' % (x[free], case['fixed']), rtol=0, atol=1e-9)
    tags(case, free, ctx)


@P.sub('many_spins', gen.large(6, 180, m=st.integers(1, 150), boost=st.booleans(), sysit=st.booleans(), scales=(.3, 1., 4., 40.)),
       quick=30, thorough=600)
def many_spins(case, ctx):
    """Every single step of a chain too large to enumerate, with any number of fixed spins."""
    from coniii.samplers import Metropolis
    from coniii import utils
    global _F
    if '_F' not in globals():
        _F = utils.define_ising_helper_functions()[0]
    n, th, h, J = chain.large_model(case)
    r = np.random.RandomState(case['seed'])
    fx = sorted(r.choice(n, size=min(case['m'], n - 1), replace=False).tolist())
    fixed = [(i, int(v)) for i, v in zip(fx, r.choice([-1, 1], size=len(fx)))]
    s = Metropolis(n, th, calc_e=_F, rng=r, boost=case['boost'], iprint=False)
    N = 10000 if case['boost'] else 1500
    s.generate_cond_sample(N, list(fixed), burn_in=10 * n, n_iters=1, systematic_iter=case['sysit'], parallel=False)
    X = np.asarray(s.sample).astype(int)
    fixed_ok(X, dict(n=n, fixed=fixed), N)
    chain.check_steps(X, chain.acceptance(X, h, J), 'conditional sample of %d of %d spins' % (n - len(fx), n), case['sysit'],
                      [i for i in range(n) if i not in fx])
    ctx.tag('compiled', case['boost'])
    ctx.tag('systematic', case['sysit'])
    ctx.trivial(not np.any(th))


@st.composite
def turn_case(draw):
    n = draw(st.integers(4, 9))
    k = draw(st.integers(1, n - 3))
    fixed = sorted(draw(st.permutations(range(n)))[:k])
    return dict(n=n, fixed=[[i, draw(st.sampled_from([-1, 1]))] for i in fixed], it=draw(st.integers(1, 8)), burn=draw(st.integers(0, 12)),
                N=draw(st.integers(3, 40)), how=draw(st.sampled_from(['python', 'compiled', 'direct', 'parallel'])), seed=draw(gen.seeds))


def conditional_draw(case, th, N, burn, it, sysit=True, s=None):
    from coniii.samplers import Metropolis
    if case['how'] == 'direct':
        from coniii.samplers_ext import BoostIsing
        b = BoostIsing(case['n'], th, case['seed'])
        i, v = np.array(case['fixed'], dtype=np.int32).T.copy()
        b.generate_cond_sample(i, v, N, burn, it, sysit)
        return b.fetch_sample()
    if s is None:
        s = Metropolis(case['n'], th, calc_e=lambda X, t: energy(X, t), rng=np.random.RandomState(case['seed']), boost=case['how'] != 'python', iprint=False)
    s.generate_cond_sample(N, duples(case), burn_in=burn, n_iters=it, systematic_iter=sysit, parallel=case['how'] == 'parallel')
    return s.sample


@P.sub('in_turn', turn_case, quick=48, thorough=800)
def in_turn(case, ctx):
    """In zero field every proposal is accepted, so the order in which free spins are visited can be read off the states; in strong
    fields as many steps in turn as there are free spins settle all of them."""
    import multiprocess as mp
    n = case['n']
    fx = [i for i, _ in case['fixed']]
    free = np.delete(np.arange(n), fx)
    m = len(free)
    it = 1 + case['it'] % (m - 1)
    par = case['how'] == 'parallel'
    N = case['N'] * mp.cpu_count() - case['N'] % 3 if par else case['N']
    th = np.zeros(nparams(n))
    X = conditional_draw(case, th, N, case['burn'], it)
    fixed_ok(X, case, N)
    chain.turns(X, it, free, 'conditional sample', mp.cpu_count() - 1 if par else 0)
    pat = np.random.RandomState(case['seed']).choice([-1, 1], size=n)
    th[:n] = 60. * pat
    for burn, k in ((m, 0), (0, m), (m + 1, 1)):
        N = 2 * mp.cpu_count() if par else 6
        X = conditional_draw(case, th, N, burn, k)
        fixed_ok(X, case, N)
        need(bool((X[:, free] == pat[free]).all()), '%d + %d steps in turn did not settle %d free spins', burn, k, m)
    for burn, k in ((0, 0), (m - 1, 0)):
        # neither more steps than asked for: a free spin starts at random
        X = np.concatenate([conditional_draw(dict(case, seed=(case['seed'] + j) % 2**31), th, 1, burn, k) for j in range(0 if par else 60)] or [np.zeros((0, n))])
        need(par or not (X[:, free] == pat[free]).all(), '%d steps in turn settled %d free spins in all of 60 samples', burn, m)
    ctx.tag(case['how'])
    ctx.tag('first spin fixed', 0 in fx)


@P.sub('fresh_draws', st.fixed_dictionaries(dict(n=st.integers(150, 200), k=st.integers(1, 5), seed=gen.seeds, how=st.sampled_from(['parallel', 'compiled']), sizes=st.lists(st.integers(1, 40), min_size=2, max_size=3))), quick=10, thorough=200)
def fresh_draws(case, ctx):
    """States of different processes and of successive calls are drawn independently; the fixed spins have any index."""
    from coniii.samplers import Metropolis
    n = case['n']
    r = np.random.RandomState(case['seed'])
    fx = sorted({n - 1 - int(r.randint(3))} | set(r.choice(n, size=case['k'], replace=False).tolist()))
    case = dict(case, fixed=[[i, int(v)] for i, v in zip(fx, r.choice([-1, 1], size=len(fx)))])
    free = np.delete(np.arange(n), fx)
    th = np.zeros(nparams(n))
    th[:n] = r.choice([-1, 1], size=n) * r.uniform(.2, 1, size=n)
    p = 1 / (1 + np.exp(-2 * th[free]))        # probability of +1: energy is -h s
    s = Metropolis(n, th, rng=np.random.RandomState(case['seed']), iprint=False)
    rows, means, where = [], [], []
    for c, N in enumerate(case['sizes']):
        X = conditional_draw(case, th, N, 40 * n, 40 * n, False, s)
        fixed_ok(X, case, N)
        for t, x in enumerate(X[:, free]):
            rows.append(np.stack([x < 0, x > 0]).astype(float))
            means.append(np.stack([1 - p, p]))
            where.append('state %d of call %d' % (t, c))
    chain.unrelated(rows, means, where)
    ctx.tag(case['how'])
